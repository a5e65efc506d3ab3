// Package vfilepath stands in for path/filepath: the functions that look at
// files see the ones of vos.
package vfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"
	"strings"

	"github.com/kisom/psignify/internal/vos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

type WalkFunc func(path string, info fs.FileInfo, err error) error

func Match(p, n string) (bool, error)   { return filepath.Match(p, n) }
func Clean(p string) string             { return filepath.Clean(p) }
func IsLocal(p string) bool             { return filepath.IsLocal(p) }
func Localize(p string) (string, error) { return filepath.Localize(p) }
func ToSlash(p string) string           { return p }
func FromSlash(p string) string         { return p }
func SplitList(p string) []string       { return filepath.SplitList(p) }
func Split(p string) (string, string)   { return filepath.Split(p) }
func Join(e ...string) string           { return filepath.Join(e...) }
func Ext(p string) string               { return filepath.Ext(p) }
func IsAbs(p string) bool               { return strings.HasPrefix(p, "/") }
func Rel(b, t string) (string, error)   { return filepath.Rel(b, t) }
func Base(p string) string              { return filepath.Base(p) }
func Dir(p string) string               { return filepath.Dir(p) }
func VolumeName(p string) string        { return "" }
func HasPrefix(p, prefix string) bool   { return strings.HasPrefix(p, prefix) }

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	if t, err := vos.Readlink(p); err == nil {
		return t, nil
	}
	return Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	var r []string
	for _, n := range vos.Files() {
		ok, err := filepath.Match(pattern, n)
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r, nil
}

func Walk(root string, fn WalkFunc) error {
	var r []string
	for _, n := range vos.Files() {
		if n == root || strings.HasPrefix(n, strings.TrimSuffix(root, "/")+"/") {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	for _, n := range r {
		fi, err := vos.Lstat(n)
		if err := fn(n, fi, err); err != nil && err != SkipDir {
			if err == SkipAll {
				return nil
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		if err != nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), nil)
	})
}
