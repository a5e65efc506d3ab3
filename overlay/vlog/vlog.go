// Package vlog stands in for log.
package vlog

import (
	"io"

	"github.com/kisom/psignify/internal/vfmt"
	"github.com/kisom/psignify/internal/vos"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

var out io.Writer = vos.Stderr
var prefix string

func SetFlags(int)          {}
func SetPrefix(p string)    { prefix = p }
func SetOutput(w io.Writer) { out = w }

func emit(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	io.WriteString(out, prefix+s)
}
func Print(a ...interface{})            { emit(vfmt.Sprint(a...)) }
func Printf(f string, a ...interface{}) { emit(vfmt.Sprintf(f, a...)) }
func Println(a ...interface{})          { emit(vfmt.Sprintln(a...)) }
func Fatal(a ...interface{})            { Print(a...); vos.Exit(1) }
func Fatalf(f string, a ...interface{}) { Printf(f, a...); vos.Exit(1) }
func Fatalln(a ...interface{})          { Println(a...); vos.Exit(1) }
func Panic(a ...interface{})            { Print(a...); panic(vfmt.Sprint(a...)) }
func Panicf(f string, a ...interface{}) { Printf(f, a...); panic(vfmt.Sprintf(f, a...)) }
