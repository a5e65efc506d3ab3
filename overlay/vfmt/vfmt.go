// Package vfmt stands in for fmt: the common verbs, printed to vos.
package vfmt

import (
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

type (
	Stringer  = fmt.Stringer
	Formatter = fmt.Formatter
	State     = fmt.State
	Scanner   = fmt.Scanner
)

func number(neg bool, u uint64, base int) string {
	if !vrt.IsConcreteInt(int(u)) {
		// digits of an unknown number: stand for it, so that outputs differ if numbers do
		return "<" + raw(u) + ">"
	}
	s := strconv.FormatUint(u, base)
	if neg {
		s = "-" + s
	}
	return s
}

func raw(u uint64) string {
	var b [8]byte
	for i := range b {
		b[i] = byte(u >> (8 * uint(i)))
	}
	return string(b[:])
}

func list(b []byte) string {
	s := "["
	for i, c := range b {
		if i > 0 {
			s += " "
		}
		s += number(false, uint64(c), 10)
	}
	return s + "]"
}

func abs(i int64) (bool, uint64) {
	if !vrt.IsConcreteInt(int(i)) {
		return false, uint64(i)
	}
	if i < 0 {
		return true, uint64(-i)
	}
	return false, uint64(i)
}

func hexs(s string) string {
	const d = "0123456789abcdef"
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, d[s[i]>>4], d[s[i]&15])
	}
	return string(b)
}

func text(verb byte, a interface{}) (string, bool) {
	base := 10
	switch verb {
	case 'x':
		base = 16
	case 'o':
		base = 8
	case 'b':
		base = 2
	}
	str := func(s string) (string, bool) {
		switch verb {
		case 's', 'v', 'w':
			return s, true
		case 'x':
			return hexs(s), true
		case 'q':
			if vrt.IsConcrete([]byte(s)) {
				return strconv.Quote(s), true
			}
			return "\"" + s + "\"", true
		}
		return "", false
	}
	integer := func(i int64) (string, bool) {
		switch verb {
		case 'd', 'v', 'x', 'o', 'b':
			neg, u := abs(i)
			return number(neg, u, base), true
		case 'c':
			return string(rune(i)), true
		}
		return "", false
	}
	unsigned := func(u uint64) (string, bool) {
		switch verb {
		case 'd', 'v', 'x', 'o', 'b':
			return number(false, u, base), true
		case 'c':
			return string(rune(u)), true
		}
		return "", false
	}
	switch x := a.(type) {
	case nil:
		if verb == 'v' {
			return "<nil>", true
		}
		return "%!" + string(rune(verb)) + "(<nil>)", true
	case error:
		return str(x.Error())
	case fmt.Stringer:
		return str(x.String())
	case string:
		return str(x)
	case []byte:
		if verb == 'v' || verb == 'd' {
			return list(x), true
		}
		return str(string(x))
	case [8]byte:
		return text(verb, x[:])
	case [16]byte:
		return text(verb, x[:])
	case [32]byte:
		return text(verb, x[:])
	case [64]byte:
		return text(verb, x[:])
	case bool:
		if verb == 'v' || verb == 't' {
			if x {
				return "true", true
			}
			return "false", true
		}
	case int:
		return integer(int64(x))
	case int8:
		return integer(int64(x))
	case int16:
		return integer(int64(x))
	case int32:
		return integer(int64(x))
	case int64:
		return integer(x)
	case uint:
		return unsigned(uint64(x))
	case uint8:
		return unsigned(uint64(x))
	case uint16:
		return unsigned(uint64(x))
	case uint32:
		return unsigned(uint64(x))
	case uint64:
		return unsigned(x)
	case vos.FileMode:
		return unsigned(uint64(x))
	}
	return "", false
}

func mini(format string, a []interface{}) (string, bool) {
	out := ""
	n := 0
	start := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out += format[start:i]
		i++
		if i >= len(format) {
			return "", false
		}
		if format[i] == '%' {
			out += "%"
			start = i + 1
			continue
		}
		if n >= len(a) {
			return "", false
		}
		for i+1 < len(format) && (format[i] >= '0' && format[i] <= '9' || format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == '.' || format[i] == ' ') {
			if !vrt.Symbolic() {
				return "", false
			}
			i++
		}
		s, ok := text(format[i], a[n])
		if !ok {
			return "", false
		}
		out += s
		n++
		start = i + 1
	}
	if n != len(a) {
		return "", false
	}
	return out + format[start:], true
}

func Sprintf(format string, a ...interface{}) string {
	s, ok := mini(format, a)
	if !ok {
		if vrt.Symbolic() {
			return "<formatted>"
		}
		return fmt.Sprintf(format, a...)
	}
	return s
}

func Sprint(a ...interface{}) string {
	out := ""
	prevStr := true
	for i, x := range a {
		_, isStr := x.(string)
		if i > 0 && !isStr && !prevStr {
			out += " "
		}
		prevStr = isStr
		s, ok := text('v', x)
		if !ok {
			s = "<formatted>"
			if !vrt.Symbolic() {
				s = fmt.Sprint(x)
			}
		}
		out += s
	}
	return out
}

func Sprintln(a ...interface{}) string {
	out := ""
	for i, x := range a {
		if i > 0 {
			out += " "
		}
		s, ok := text('v', x)
		if !ok {
			s = "<formatted>"
			if !vrt.Symbolic() {
				s = fmt.Sprint(x)
			}
		}
		out += s
	}
	return out + "\n"
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, a ...interface{}) error {
	msg := Sprintf(format, a...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(a) {
			if e, ok := a[n].(error); ok {
				return &wrapError{msg, e}
			}
		}
		n++
	}
	return errors.New(msg)
}

func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func Printf(format string, a ...interface{}) (int, error) { return Fprintf(vos.Stdout, format, a...) }
func Print(a ...interface{}) (int, error)                 { return Fprint(vos.Stdout, a...) }
func Println(a ...interface{}) (int, error)               { return Fprintln(vos.Stdout, a...) }

func Append(b []byte, a ...interface{}) []byte { return append(b, Sprint(a...)...) }
func Appendf(b []byte, format string, a ...interface{}) []byte {
	return append(b, Sprintf(format, a...)...)
}
func Appendln(b []byte, a ...interface{}) []byte                  { return append(b, Sprintln(a...)...) }
func Sscanf(s, format string, a ...interface{}) (int, error)      { return fmt.Sscanf(s, format, a...) }
func Sscan(s string, a ...interface{}) (int, error)               { return fmt.Sscan(s, a...) }
func Fscanf(r io.Reader, f string, a ...interface{}) (int, error) { return fmt.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...interface{}) (int, error)          { return fmt.Fscanln(r, a...) }
func Fscan(r io.Reader, a ...interface{}) (int, error)            { return fmt.Fscan(r, a...) }
