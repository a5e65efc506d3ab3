// Package vos stands in for package os: an in-memory file system with an
// operation log, fault injection and split reads.  Nothing here touches the
// real system.
package vos

import (
	"errors"
	"io"
	"io/fs"
	ros "os"
	"strings"
	"syscall"
	"time"

	"github.com/kisom/psignify/internal/vrt"
)

type (
	PathError    = fs.PathError
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	SyscallError struct {
		Syscall string
		Err     error
	}
	LinkError struct {
		Op, Old, New string
		Err          error
	}
	Signal interface {
		String() string
		Signal()
	}
)

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }
func (e *LinkError) Error() string    { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error    { return e.Err }

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrProcessDone      = errors.New("os: process already finished")
	ErrNoDeadline       = errors.New("file type does not support deadline")

	// ErrFault is what an injected fault returns.
	ErrFault = errors.New("injected I/O fault")
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

// Node is one file.
type Node struct {
	Path string
	Data []byte
	Mode FileMode
	Dir  bool
	Gone bool
	// MinMode is the widest permission the file ever had while it held data.
	Wide FileMode
	// Pipe: reads may return fewer bytes than asked, size is reported as 0.
	Pipe bool
	// Grown is the number of bytes the file grows after its size was asked
	// for (negative: shrinks).
	Grown int
	// Also is another name of the file (a hard or symbolic link).
	Also string
	// Sym makes the other name a symbolic link to the first.
	Sym  bool
	link *Node
}

var (
	nodes []*Node

	// FailOp is the index of the I/O operation that fails (-1: none).
	FailOp = -1
	// FailPartial makes a failing write store a prefix first, and lets a
	// failing read deliver some bytes first.
	FailPartial = false
	// Ops counts fallible I/O operations.
	Ops int
	// Faulted tells whether (and what) fault fired.
	Faulted   bool
	FaultKind string
	FaultPath string

	// FailErrs makes the injected fault any of the errors the kernel reports.
	FailErrs bool
	failErr  error

	// Changes counts the operations that may change files (all but read and
	// stat). CrashOp is the index of the one the process dies in (-1: none): a
	// write is cut off, others do not happen any more. Dying elsewhere leaves
	// the same behind as dying in the next change.
	Changes int
	CrashOp = -1

	// CrashStep, if above 1, selects the prefixes: short ones, long ones and
	// every CrashStep-th.
	CrashStep = 0

	// SplitReads is the number of reads that may be arbitrarily short.
	SplitReads int
	// OneByteReads makes every read return at most one byte.
	OneByteReads bool
	// MaxRead bounds every read (0: no bound).
	MaxRead int

	// Hook is called before every I/O operation.
	Hook func(kind, path string)

	// Created and removed paths, in order.
	Touched []string
	// Live open handles for writing.
	OpenHandles int

	Args   = []string{"psignify"}
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}

	OutText []byte
	ErrText []byte
	InText  []byte

	Environ_ = []string{"HOME=/home/u", "USER=u"}

	frozen bool
	Umask  FileMode = 022
	Now    int64
)

// Crash ends the simulated process at once: nothing it does later counts.
func Crash() {
	CrashOp = -1
	frozen = true
	panic(exitPanic{-1})
}

type exitPanic struct{ code int }

// Exit ends the simulated process.
func Exit(code int) {
	frozen = true
	panic(exitPanic{code})
}

// Process runs f as a process; it reports the exit status.
func Process(f func()) (code int, crashed bool) {
	defer func() {
		frozen = false
		if r := recover(); r != nil {
			if e, ok := r.(exitPanic); ok {
				code = e.code
				return
			}
			if vrt.IsStop(r) {
				panic(r)
			}
			code, crashed = 2, true
		}
	}()
	f()
	return 0, false
}

func clean(p string) string {
	for len(p) > 2 && p[0] == '.' && p[1] == '/' {
		p = p[2:]
	}
	if len(p) > 0 && p[0] != '/' {
		p = Wd + "/" + p
	}
	return p
}

// Wd is the working directory.
var Wd = "/home/u"

func find(path string) *Node {
	path = clean(path)
	for _, n := range nodes {
		if (n.Path == path || n.Also != "" && n.Also == path) && !n.Gone {
			return n
		}
	}
	return nil
}

// Put creates a file (harness side).
func Put(path string, data []byte, mode FileMode) *Node {
	n := find(path)
	if n == nil {
		n = &Node{Path: clean(path)}
		nodes = append(nodes, n)
	}
	n.Data = append([]byte(nil), data...)
	n.Mode = mode
	return n
}

// Get returns a file's content (harness side).
func Get(path string) ([]byte, bool) {
	n := find(path)
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Lookup returns a file (harness side).
func Lookup(path string) *Node { return find(path) }

// Del removes a file (harness side).
func Del(path string) {
	if n := find(path); n != nil {
		n.Gone = true
	}
}

// Files lists the paths that exist (harness side).
func Files() []string {
	var r []string
	for _, n := range nodes {
		if !n.Gone && !n.Dir {
			r = append(r, n.Path)
		}
	}
	return r
}

func fault(kind, path string) bool {
	if frozen {
		return false
	}
	if Hook != nil {
		Hook(kind, path)
	}
	i := Ops
	Ops++
	if kind != "read" && kind != "stat" {
		if CrashOp >= 0 && Changes == CrashOp {
			Crash()
		}
		Changes++
	}
	if FailOp >= 0 && i == FailOp {
		Faulted = true
		FaultKind = kind
		FaultPath = path
		failErr = ErrFault
		if FailErrs {
			es := errnos(kind)
			if k := vrt.Choose("errno", 1+len(es)); k > 0 {
				failErr = es[k-1]
			}
		}
		return true
	}
	return false
}

// errnos is what the kernel may say when an operation of a kind fails.
func errnos(kind string) []syscall.Errno {
	switch kind {
	case "open":
		return []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EROFS}
	case "read":
		return []syscall.Errno{syscall.EIO, syscall.ETIMEDOUT, syscall.ESTALE}
	case "write", "close":
		return []syscall.Errno{syscall.ENOSPC, syscall.EPIPE, syscall.EIO, syscall.EDQUOT}
	case "stat":
		return []syscall.Errno{syscall.EACCES, syscall.EIO}
	}
	return []syscall.Errno{syscall.EPERM, syscall.EACCES, syscall.EIO}
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

// File is an open file.
type File struct {
	name   string
	node   *Node
	off    int64
	flag   int
	closed bool
	std    int
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 3
}

func touch(p string) {
	p = clean(p)
	for _, t := range Touched {
		if t == p {
			return
		}
	}
	Touched = append(Touched, p)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if frozen {
		return nil, perr("open", name, ErrFault)
	}
	if name == "" {
		return nil, perr("open", name, ErrNotExist)
	}
	switch name {
	case "/dev/stdin":
		return Stdin, nil
	case "/dev/stdout":
		return Stdout, nil
	case "/dev/stderr":
		return Stderr, nil
	}
	if fault("open", name) {
		return nil, perr("open", name, failErr)
	}
	n := find(name)
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		n = &Node{Path: clean(name), Mode: perm &^ Umask}
		nodes = append(nodes, n)
		touch(name)
	} else {
		if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
			return nil, perr("open", name, ErrExist)
		}
		if n.Dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
	}
	if flag&(O_WRONLY|O_RDWR) != 0 && flag&O_TRUNC != 0 && !n.Pipe {
		n.Data = nil
		touch(name)
	}
	if flag&(O_WRONLY|O_RDWR) != 0 {
		OpenHandles++
	}
	return &File{name: name, node: n, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if frozen {
		return ErrFault
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std == 1 {
		if len(InText) == 0 {
			return 0, io.EOF
		}
		n := copy(p, InText)
		InText = InText[n:]
		return n, nil
	}
	if f.std != 0 || f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if fault("read", f.name) {
		return 0, perr("read", f.name, failErr)
	}
	if f.node.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.node.Data)) {
		return 0, io.EOF
	}
	rest := f.node.Data[f.off:]
	if len(rest) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	if OneByteReads && n > 1 {
		n = 1
	}
	if MaxRead > 0 && n > MaxRead {
		n = MaxRead
	}
	if SplitReads > 0 && n > 1 {
		SplitReads--
		k := vrt.Int("readlen", 1, 1<<20)
		vrt.Assume(k <= n)
		n = k
	}
	copy(p, rest[:n])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if fault("read", f.name) {
		return 0, perr("read", f.name, failErr)
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	if off >= int64(len(f.node.Data)) {
		return 0, io.EOF
	}
	n := copy(p, f.node.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (n *Node) put(off int, p []byte) {
	end := off + len(p)
	if off == len(n.Data) {
		n.Data = append(n.Data, p...)
	} else {
		if end > len(n.Data) {
			n.Data = append(n.Data, make([]byte, end-len(n.Data))...)
		}
		copy(n.Data[off:], p)
	}
	n.Wide |= n.Mode & 0777
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	switch f.std {
	case 2:
		OutText = append(OutText, p...)
		return len(p), nil
	case 3:
		ErrText = append(ErrText, p...)
		return len(p), nil
	}
	if f.std != 0 || f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	touch(f.name)
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.node.Data))
	}
	if CrashOp >= 0 && Changes == CrashOp {
		step := CrashStep
		if step < 1 {
			step = 1
		}
		var ks []int
		for k := 0; k <= len(p); k++ {
			if k <= 3 || len(p)-k <= 6 || k%step == 0 {
				ks = append(ks, k)
			}
		}
		k := ks[vrt.Choose("written", len(ks))]
		if k > 0 {
			f.node.put(int(f.off), p[:k])
		}
		Crash()
	}
	if fault("write", f.name) {
		k := 0
		if FailPartial && len(p) > 0 {
			k = len(p) / 2
			f.node.put(int(f.off), p[:k])
			f.off += int64(k)
		}
		return k, perr("write", f.name, failErr)
	}
	if len(p) == 0 {
		return 0, nil
	}
	f.node.put(int(f.off), p)
	f.off += int64(len(p))
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	touch(f.name)
	if fault("write", f.name) {
		return 0, perr("write", f.name, failErr)
	}
	f.node.put(int(off), p)
	return len(p), nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 32*1024)
	var total int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := f.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		offset += f.off
	case 2:
		offset += int64(len(f.node.Data))
	}
	if offset < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = offset
	return offset, nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if frozen {
		return nil
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	if f.std != 0 {
		return nil
	}
	f.closed = true
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		OpenHandles--
		if fault("close", f.name) {
			return perr("close", f.name, failErr)
		}
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std == 0 && fault("sync", f.name) {
		return perr("sync", f.name, failErr)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if fault("truncate", f.name) {
		return perr("truncate", f.name, failErr)
	}
	touch(f.name)
	return f.node.truncate(size)
}

func (n *Node) truncate(size int64) error {
	if size <= int64(len(n.Data)) {
		n.Data = n.Data[:size]
	} else {
		n.Data = append(n.Data, make([]byte, int(size)-len(n.Data))...)
	}
	return nil
}

func Truncate(name string, size int64) error {
	if frozen {
		return ErrFault
	}
	n := find(name)
	if n == nil {
		return perr("truncate", name, ErrNotExist)
	}
	touch(name)
	return n.truncate(size)
}

func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if fault("chmod", f.name) {
		return perr("chmod", f.name, failErr)
	}
	f.node.Mode = m
	return nil
}

func (f *File) SetDeadline(t time.Time) error { return ErrNoDeadline }

type fileStat struct {
	name string
	size int64
	mode FileMode
	dir  bool
	node *Node
}

func (s *fileStat) Name() string       { return s.name }
func (s *fileStat) Size() int64        { return s.size }
func (s *fileStat) Mode() FileMode     { return s.mode }
func (s *fileStat) ModTime() time.Time { return time.Time{} }
func (s *fileStat) IsDir() bool        { return s.dir }
func (s *fileStat) Sys() interface{}   { return nil }

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func (n *Node) stat() FileInfo {
	s := &fileStat{name: base(n.Path), size: int64(len(n.Data) - n.Grown), mode: n.Mode, dir: n.Dir, node: n}
	if n.Dir {
		s.mode |= ModeDir
	}
	if n.Pipe {
		s.size = 0
		s.mode |= ModeNamedPipe
	}
	return s
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return &fileStat{name: f.name, mode: ModeCharDevice}, nil
	}
	if fault("stat", f.name) {
		return nil, perr("stat", f.name, failErr)
	}
	return f.node.stat(), nil
}

func Stat(name string) (FileInfo, error) {
	if frozen {
		return nil, ErrFault
	}
	if fault("stat", name) {
		return nil, perr("stat", name, failErr)
	}
	n := find(name)
	if n == nil {
		return nil, perr("stat", name, ErrNotExist)
	}
	return n.stat(), nil
}

func Lstat(name string) (FileInfo, error) {
	fi, err := Stat(name)
	if err != nil {
		return nil, err
	}
	n := fi.(*fileStat).node
	if n == nil || !n.Sym || n.Also != clean(name) {
		return fi, nil
	}
	if n.link == nil {
		n.link = &Node{Path: n.Also}
	}
	return &fileStat{name: base(n.Also), size: int64(len(n.Path)), mode: ModeSymlink | 0777, node: n.link}, nil
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*fileStat)
	y, ok2 := b.(*fileStat)
	return ok && ok2 && x.node == y.node && (x.node != nil || x.name == y.name)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.std != 0 {
		b := InText
		InText = nil
		return b, nil
	}
	if f.node.Dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if fault("read", name) {
		n := 0
		if FailPartial {
			n = vrt.Int("readbefore", 0, 1<<25)
			vrt.Assume(n <= len(f.node.Data))
		}
		out := make([]byte, n)
		copy(out, f.node.Data)
		return out, perr("read", name, failErr)
	}
	out := make([]byte, len(f.node.Data))
	copy(out, f.node.Data)
	return out, nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(name string) error {
	if frozen {
		return ErrFault
	}
	if fault("remove", name) {
		return perr("remove", name, failErr)
	}
	n := find(name)
	if n == nil {
		return perr("remove", name, ErrNotExist)
	}
	n.drop(name)
	touch(name)
	return nil
}

// drop removes one name of a file.
func (n *Node) drop(name string) {
	switch {
	case n.Also == "":
		n.Gone = true
	case n.Also == clean(name):
		n.Also = ""
	case n.Sym:
		n.Gone = true
	default:
		n.Path, n.Also = n.Also, ""
	}
}

func RemoveAll(name string) error {
	if frozen {
		return ErrFault
	}
	for _, n := range nodes {
		if n.Path == clean(name) || len(n.Path) > len(name) && n.Path[:len(name)] == name && n.Path[len(name)] == '/' {
			n.Gone = true
		}
	}
	touch(name)
	return nil
}

func Rename(from, to string) error {
	if frozen {
		return ErrFault
	}
	if fault("rename", from) {
		return &LinkError{"rename", from, to, failErr}
	}
	n := find(from)
	if n == nil {
		return &LinkError{"rename", from, to, ErrNotExist}
	}
	if o := find(to); o == n {
		return nil
	} else if o != nil {
		o.drop(to)
	}
	if n.Also != "" && n.Also == clean(from) {
		n.Also = clean(to)
	} else {
		n.Path = clean(to)
	}
	touch(to)
	touch(from)
	return nil
}

func Link(from, to string) error {
	if frozen {
		return ErrFault
	}
	n := find(from)
	if n == nil {
		return &LinkError{"link", from, to, ErrNotExist}
	}
	if find(to) != nil {
		return &LinkError{"link", from, to, ErrExist}
	}
	n.Also = clean(to)
	touch(to)
	return nil
}

func Chmod(name string, m FileMode) error {
	if frozen {
		return ErrFault
	}
	if fault("chmod", name) {
		return perr("chmod", name, failErr)
	}
	n := find(name)
	if n == nil {
		return perr("chmod", name, ErrNotExist)
	}
	n.Mode = m
	return nil
}

func Mkdir(name string, perm FileMode) error {
	if frozen {
		return ErrFault
	}
	if find(name) != nil {
		return perr("mkdir", name, ErrExist)
	}
	nodes = append(nodes, &Node{Path: clean(name), Dir: true, Mode: perm})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if frozen {
		return ErrFault
	}
	if n := find(name); n != nil {
		if !n.Dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	nodes = append(nodes, &Node{Path: clean(name), Dir: true, Mode: perm})
	return nil
}

var tempN int

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	tempN++
	num := string(rune('0'+tempN%10)) + "7391"
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	if dir == "." {
		return pre + num + suf
	}
	return dir + "/" + pre + num + suf
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func TempDir() string { return "/tmp" }

func IsNotExist(err error) bool    { return underlyingIs(err, ErrNotExist) }
func IsExist(err error) bool       { return underlyingIs(err, ErrExist) }
func IsPermission(err error) bool  { return underlyingIs(err, ErrPermission) }
func IsTimeout(err error) bool     { return false }
func IsPathSeparator(c uint8) bool { return c == '/' }

func underlyingIs(err, target error) bool {
	switch e := err.(type) {
	case *PathError:
		err = e.Err
	case *LinkError:
		err = e.Err
	case *SyscallError:
		err = e.Err
	}
	return err == target
}

// EnvAny gives every variable that is not known otherwise a value.
var EnvAny string

func LookupEnv(k string) (string, bool) {
	for _, e := range Environ_ {
		if len(e) > len(k) && e[:len(k)] == k && e[len(k)] == '=' {
			return e[len(k)+1:], true
		}
	}
	if EnvAny != "" && k != "PATH" && k != "TMPDIR" && k != "PWD" && k != "LOGNAME" && k != "TERM" {
		return EnvAny, true
	}
	return "", false
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func Environ() []string      { return Environ_ }
func Setenv(k, v string) error {
	Environ_ = append([]string{k + "=" + v}, Environ_...)
	return nil
}
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}
func Getwd() (string, error)      { return Wd, nil }
func Getpid() int                 { return 4242 }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Hostname() (string, error)   { return "host", nil }
func Executable() (string, error) { return "/usr/bin/psignify", nil }

func Getgid() int  { return 1000 }
func Getegid() int { return 1000 }
func Getppid() int { return 4241 }
func Unsetenv(k string) error {
	var r []string
	for _, e := range Environ_ {
		if len(e) <= len(k) || e[:len(k)] != k || e[len(k)] != '=' {
			r = append(r, e)
		}
	}
	Environ_ = r
	return nil
}
func Clearenv()                                     { Environ_ = nil }
func Expand(s string, f func(string) string) string { return ros.Expand(s, f) }
func ExpandEnv(s string) string                     { return ros.Expand(s, Getenv) }
func UserConfigDir() (string, error) {
	h, err := UserHomeDir()
	return h + "/.config", err
}
func UserCacheDir() (string, error) {
	h, err := UserHomeDir()
	return h + "/.cache", err
}
func Chdir(d string) error {
	Wd = clean(d)
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	if find(name) == nil {
		return perr("chtimes", name, ErrNotExist)
	}
	return nil
}

func Chown(name string, u, g int) error {
	if find(name) == nil {
		return perr("chown", name, ErrNotExist)
	}
	return nil
}

func Readlink(name string) (string, error) {
	n := find(name)
	if n == nil {
		return "", perr("readlink", name, ErrNotExist)
	}
	if !n.Sym || n.Also != clean(name) {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.Path, nil
}

func Symlink(to, name string) error {
	if frozen {
		return ErrFault
	}
	if fault("symlink", name) {
		return &LinkError{"symlink", to, name, failErr}
	}
	n := find(to)
	if find(name) != nil || n == nil || n.Also != "" {
		return &LinkError{"symlink", to, name, ErrExist}
	}
	n.Also, n.Sym = clean(name), true
	touch(name)
	return nil
}

// ReadDir lists a directory.
func ReadDir(name string) ([]DirEntry, error) {
	if frozen {
		return nil, ErrFault
	}
	if fault("open", name) {
		return nil, perr("open", name, failErr)
	}
	d := clean(name)
	var r []DirEntry
	for _, p := range Files() {
		if i := strings.LastIndexByte(p, '/'); i == len(d) && p[:i] == d {
			r = append(r, fs.FileInfoToDirEntry(find(p).stat()))
		}
	}
	return r, nil
}
