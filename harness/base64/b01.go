package base64

import (
	"errors"
	"io"

	"github.com/kisom/psignify/internal/vrt"
)

// vhSink collects what is written; it may fail at a given call.
type vhSink struct {
	b     []byte
	calls int
	fail  int // index of the failing call, -1: none
	keep  int // bytes stored by the failing call
}

// vhErr is the error of injected failures.
var vhErr = errors.New("injected failure")

// vhAnyErr makes it any of several errors that have a meaning elsewhere.
func vhAnyErr() {
	if k := vrt.Choose("error", 4); k > 0 {
		vhErr = []error{io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe}[k-1]
	}
}

func (s *vhSink) Write(p []byte) (int, error) {
	i := s.calls
	s.calls++
	if s.fail >= 0 && i == s.fail {
		n := s.keep
		if n > len(p) {
			n = len(p)
		}
		s.b = append(s.b, p[:n]...)
		return n, vhErr
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

const vhAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// vhEncode is the reference: RFC 4648 in lines of 72 characters, a newline
// after every full line, the last (partial, padded) line and a final newline.
func vhEncode(d []byte) []byte {
	var out []byte
	n := 0
	for i := 0; i < len(d); i += 3 {
		var b [3]byte
		k := copy(b[:], d[i:])
		v := uint(b[0])<<16 | uint(b[1])<<8 | uint(b[2])
		for j := 0; j < 4; j++ {
			if j > k {
				out = append(out, '=')
			} else {
				out = append(out, vhAlphabet[v>>(18-6*uint(j))&63])
			}
		}
		n += 4
		if n == 72 && k == 3 {
			out = append(out, '\n')
			n = 0
		}
	}
	return append(out, '\n')
}

func vhMax(q []int, t []int) int {
	if vrt.Thorough() {
		return t[vrt.Case(len(t))]
	}
	return q[vrt.Case(len(q))]
}

// VH_B01_split: the encoded text depends only on the bytes written, not on
// how they were split over (two) Write calls.
func VH_B01_split() {
	max := vhMax([]int{7, 30, 58}, []int{7, 58, 90, 118})
	d := vrt.Bytes("data", 0, max)
	a := vrt.Int("cut1", 0, max)
	vrt.Assume(a <= len(d))
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	_, err1 := e.Write(d[:a])
	_, err2 := e.Write(d[a:])
	err3 := e.Close()
	vrt.Assert(err1 == nil && err2 == nil && err3 == nil, "no error on a working writer")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(d)), "encoded text is the canonical one")
	vrt.ObserveBytes("text", s.b)
	vrt.Reach("encoded")
}

// VH_B01_split3: three Write calls, small total.
func VH_B01_split3() {
	max := vhMax([]int{9}, []int{14})
	d := vrt.Bytes("data", 0, max)
	a := vrt.Int("cut1", 0, max)
	b := vrt.Int("cut2", 0, max)
	vrt.Assume(vrt.And(a <= b, b <= len(d)))
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	_, err1 := e.Write(d[:a])
	_, err2 := e.Write(d[a:b])
	_, err3 := e.Write(d[b:])
	err4 := e.Close()
	vrt.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil, "no error on a working writer")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(d)), "encoded text is the canonical one")
	vrt.Reach("encoded")
}

// VH_B01_line: many full lines in one Write, any split point of the last line.
func VH_B01_line() {
	lines := []int{1, 2, 3, 6}[vrt.Case(4)]
	max := lines*54 + 4
	d := vrt.Bytes("data", max-8, max)
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	_, err1 := e.Write(d)
	err3 := e.Close()
	vrt.Assert(err1 == nil && err3 == nil, "no error on a working writer")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(d)), "encoded text is the canonical one")
	vrt.ObserveBytes("text", s.b)
	vrt.Reach("encoded")
}

// VH_B01_big: a short write before or after one of several lines.
func VH_B01_big() {
	n := []int{54, 108, 110, 162, 163, 230}[vrt.Case(6)]
	a := []int{1, 2, 3, 6, 51, 52, 53, 54, 55, 57}[vrt.Choose("short", 10)]
	d := vrt.Bytes("data", n+a, n+a)
	if vrt.Choose("order", 2) == 1 {
		a = n
	}
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	n1, err1 := e.Write(d[:a])
	n2, err2 := e.Write(d[a:])
	err3 := e.Close()
	vrt.Assert(err1 == nil && err2 == nil && err3 == nil, "no error on a working writer")
	vrt.Assert(n1 == a && n2 == len(d)-a, "everything taken")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(d)), "encoded text is the canonical one")
	vrt.Reach("encoded")
}

// VH_B02_count: Write reports the number of bytes it took and leaves its
// argument alone, and does not keep it.
func VH_B02_count() {
	max := vhMax([]int{8, 57}, []int{12, 110})
	d := vrt.Bytes("data", 0, max)
	a := vrt.Int("cut1", 0, 4)
	vrt.Assume(a <= len(d))
	keep := append([]byte(nil), d...)
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	n1, err1 := e.Write(d[:a])
	vrt.Assert(err1 == nil, "no error on a working writer")
	vrt.Assert(n1 == a, "Write reports every byte of its argument (first call)")
	n2, err2 := e.Write(d[a:])
	vrt.Assert(err2 == nil, "no error on a working writer")
	vrt.Assert(n2 == len(d)-a, "Write reports every byte of its argument")
	vrt.Assert(vrt.EqBytes(d, keep), "Write does not modify its argument")
	for i := range d {
		d[i] = 0x55
	}
	vrt.Assert(e.Close() == nil, "no error on a working writer")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(keep)), "Write does not retain its argument")
	vrt.Observe("n1", n1)
	vrt.Observe("n2", n2)
	vrt.Reach("written")
}

// VH_B02_copy: io.Copy through the encoder works.
func VH_B02_copy() {
	max := vhMax([]int{10}, []int{60})
	d := vrt.Bytes("data", 0, max)
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	n, err := io.Copy(e, &vhSrc{b: d, fail: -1, zero: -1, max: 4})
	vrt.Assert(err == nil, "io.Copy into the encoder succeeds")
	vrt.Assert(int(n) == len(d), "io.Copy into the encoder takes every byte")
	vrt.Assert(e.Close() == nil, "no error on a working writer")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(d)), "io.Copy into the encoder loses nothing")
	vrt.Reach("copied")
}

// VH_B02_fail: a failure of the underlying writer, at any call, is reported.
func VH_B02_fail() {
	vhAnyErr()
	max := vhMax([]int{10, 56}, []int{12, 112})
	d := vrt.Bytes("data", 0, max)
	if max > 20 && len(d) < 50 {
		vrt.Stop()
	}
	f := vrt.Int("fail", 0, 40)
	k := vrt.Int("kept", 0, 3)
	s := &vhSink{fail: f, keep: k}
	e := NewEncoder(s)
	n, err := e.Write(d)
	vrt.Assert(n >= 0 && n <= len(d), "byte count in range")
	vrt.Assert(err != nil || n == len(d), "a short count comes with an error")
	failed := err != nil
	if !failed {
		failed = e.Close() != nil
	}
	if s.calls > f {
		vrt.Assert(failed, "a failed write of the underlying writer is reported")
		vrt.Reach("failed")
	} else {
		vrt.Assert(!failed, "no error without a failure")
		vrt.Reach("ok")
	}
	vrt.ObserveBool("failed", failed)
}

// vhSrc is an underlying reader with selectable manners.
type vhSrc struct {
	b       []byte
	off     int
	max     int // most bytes per call (0: no bound)
	eofWith bool
	fail    int // offset at which the error is returned, -1: none
	zero    int // index of a call that returns 0, nil; -1: none
	calls   int
}

func (s *vhSrc) Read(p []byte) (int, error) {
	i := s.calls
	s.calls++
	if i == s.zero || len(p) == 0 {
		return 0, nil
	}
	if s.fail >= 0 && s.off >= s.fail {
		return 0, vhErr
	}
	if s.off >= len(s.b) {
		return 0, io.EOF
	}
	n := len(p)
	if s.max > 0 && n > s.max {
		n = s.max
	}
	if s.fail >= 0 && s.off+n > s.fail {
		n = s.fail - s.off
	}
	n = copy(p[:n], s.b[s.off:])
	s.off += n
	if s.eofWith && s.off == len(s.b) {
		return n, io.EOF
	}
	return n, nil
}

// vhDrain reads dec with buffers of the given sizes (the last one repeats)
// until an error.
func vhDrain(dec io.Reader, sizes []int, limit int) (out []byte, err error, ended bool) {
	for i := 0; i < limit; i++ {
		sz := sizes[len(sizes)-1]
		if i < len(sizes) {
			sz = sizes[i]
		}
		buf := make([]byte, sz+6)
		for j := range buf {
			buf[j] = 0xa5
		}
		n, e := dec.Read(buf[:sz])
		vrt.Assert(n >= 0 && n <= sz, "Read count within the buffer")
		if n < 0 || n > sz {
			vrt.Stop()
		}
		for j := sz; j < len(buf); j++ {
			vrt.Assert(buf[j] == 0xa5, "Read stays within the buffer")
		}
		out = append(out, buf[:n]...)
		if e != nil {
			return out, e, true
		}
	}
	return out, nil, false
}

func vhSource(text []byte) *vhSrc {
	s := &vhSrc{b: text, fail: -1, zero: -1}
	switch vrt.Choose("manners", 4) {
	case 1:
		s.max = 1
	case 2:
		s.eofWith = true
	case 3:
		s.zero = vrt.Int("zeroat", 0, 12)
	}
	return s
}

// VH_B03_read: every sequence of buffer sizes reads exactly the data, then EOF.
func VH_B03_read() {
	max := vhMax([]int{4, 8}, []int{6, 14})
	d := vrt.Bytes("data", 0, max)
	s1 := vrt.Int("size1", 1, 5)
	s2 := vrt.Int("size2", 1, 7)
	src := vhSource(vhEncode(d))
	out, err, ended := vhDrain(NewDecoder(src), []int{s1, s2, 3}, 2*len(d)+8)
	vrt.Assert(ended, "the end of the data is reported")
	if ended {
		vrt.Assert(err == io.EOF, "the end of the data is io.EOF")
	}
	vrt.Assert(vrt.EqBytes(out, d), "the bytes read are the data")
	vrt.ObserveBytes("out", out)
	vrt.Reach("read")
}

// VH_B03_lines: data spanning lines, one large buffer per call.
func VH_B03_lines() {
	max := vhMax([]int{56, 110}, []int{56, 110, 170})
	d := vrt.Bytes("data", max-5, max)
	s1 := []int{16, 54, 55, 57, 512}[vrt.Choose("size1", 5)]
	src := vhSource(vhEncode(d))
	out, err, ended := vhDrain(NewDecoder(src), []int{s1}, len(d)+8)
	vrt.Assert(ended, "the end of the data is reported")
	if ended {
		vrt.Assert(err == io.EOF, "the end of the data is io.EOF")
	}
	vrt.Assert(vrt.EqBytes(out, d), "the bytes read are the data")
	vrt.Reach("read")
}

// VH_B03_eof: the end stays the end; a zero-length read is harmless.
func VH_B03_eof() {
	d := vrt.Bytes("data", 0, 4)
	dec := NewDecoder(&vhSrc{b: vhEncode(d), fail: -1, zero: -1})
	n, err := dec.Read(nil)
	vrt.Assert(n == 0 && (err == nil || err == io.EOF && len(d) == 0), "an empty read does nothing")
	out, err, ended := vhDrain(dec, []int{6}, 8)
	vrt.Assert(ended && err == io.EOF, "the end of the data is io.EOF")
	vrt.Assert(vrt.EqBytes(out, d), "the bytes read are the data")
	for i := 0; i < 3; i++ {
		n, err = dec.Read(make([]byte, 6))
		vrt.Assert(n == 0 && err == io.EOF, "the end stays the end")
	}
	vrt.Reach("read")
}

// VH_B03_fail: a failure of the underlying reader is reported, never turned
// into data or into the end of the data.
func VH_B03_fail() {
	vhAnyErr()
	max := vhMax([]int{7}, []int{12})
	d := vrt.Bytes("data", 1, max)
	text := vhEncode(d)
	at := vrt.Int("at", 0, 16)
	vrt.Assume(at < len(text)-1)
	s1 := vrt.Int("size1", 1, 9)
	src := &vhSrc{b: text, fail: at, zero: -1, max: vrt.Choose("max", 2)}
	out, err, ended := vhDrain(NewDecoder(src), []int{s1}, 2*len(d)+8)
	vrt.Assert(ended && err != nil && err != io.EOF, "a failed read of the underlying reader is reported")
	ok := len(out) <= len(d)
	vrt.Assert(ok, "no data beyond the data")
	if ok {
		vrt.Assert(vrt.EqBytes(out, d[:len(out)]), "the bytes before the failure are the data")
	}
	vrt.Reach("failed")
}

// VH_B04_roundtrip: decoding what the encoder wrote gives the data back.
func VH_B04_roundtrip() {
	max := vhMax([]int{12, 57}, []int{20, 110, 200})
	min := 0
	if max > 20 {
		min = max - 6
	}
	d := vrt.Bytes("data", min, max)
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	_, err := e.Write(d)
	if err == nil {
		err = e.Close()
	}
	vrt.Assert(err == nil, "no error on a working writer")
	got, err := io.ReadAll(NewDecoder(&vhSrc{b: s.b, fail: -1, zero: -1}))
	vrt.Assert(err == nil, "what the encoder wrote decodes")
	vrt.Assert(vrt.EqBytes(got, d), "what the encoder wrote decodes to the data")
	vrt.ObserveBytes("got", got)
	vrt.Reach("decoded")
}

// vhForeign: neither in the alphabet, nor padding, nor a line break.
func vhForeign(c byte) bool {
	al := vrt.Or(vrt.And(c >= 'A', c <= 'Z'), vrt.Or(vrt.And(c >= 'a', c <= 'z'), vrt.And(c >= '/', c <= '9')))
	return vrt.And(vrt.Not(vrt.Or(al, vrt.Or(c == '+', c == '='))), vrt.And(c != '\n', c != '\r'))
}

// VH_B04_badchar: a foreign character anywhere is an error.
func VH_B04_badchar() {
	max := vhMax([]int{7}, []int{12})
	d := vrt.Bytes("data", 1, max)
	text := vhEncode(d)
	at := vrt.Int("at", 0, 16)
	vrt.Assume(at < len(text)-1)
	c := vrt.Byte("char")
	vrt.Assume(vhForeign(c))
	vrt.Assume(text[at] != '\n')
	text[at] = c
	s1 := vrt.Int("size1", 1, 9)
	_, err, ended := vhDrain(NewDecoder(&vhSrc{b: text, fail: -1, zero: -1}), []int{s1}, 2*len(d)+8)
	vrt.Assert(ended && err != nil && err != io.EOF, "a foreign character is an error")
	vrt.Reach("rejected")
}

// VH_B04_insert: foreign characters inserted anywhere are an error.
func VH_B04_insert() {
	max := vhMax([]int{5}, []int{10})
	d := vrt.Bytes("data", 1, max)
	text := vhEncode(d)
	at := vrt.Int("at", 0, 20)
	vrt.Assume(at < len(text))
	n := vrt.Choose("count", 2)*3 + 1
	ins := vrt.Bytes("chars", n, n)
	for k := range ins {
		vrt.Assume(vhForeign(ins[k]))
	}
	text = append(append(append([]byte(nil), text[:at]...), ins...), text[at:]...)
	s1 := vrt.Int("size1", 1, 9)
	_, err, ended := vhDrain(NewDecoder(&vhSrc{b: text, fail: -1, zero: -1}), []int{s1}, 2*len(d)+8)
	vrt.Assert(ended && err != nil && err != io.EOF, "a foreign character is an error")
	vrt.Reach("rejected")
}

// VH_B04_padding: padding within the text, put in place of characters before
// the last group, inserted there or left by joining two texts, is an error
// whatever the sizes of reads.
func VH_B04_padding() {
	max := vhMax([]int{7}, []int{10})
	d := vrt.Bytes("data", 1, max)
	text := vhEncode(d)
	text = text[:len(text)-1]
	how := vrt.Choose("how", 3)
	n := vrt.Choose("count", 2) + 1
	switch how {
	case 0:
		at := vrt.Int("at", 0, 16)
		vrt.Assume(at+n <= len(text)-4)
		for k := 0; k < n; k++ {
			text[at+k] = '='
		}
	case 1:
		at := vrt.Int("at", 0, 16)
		vrt.Assume(at <= len(text)-4)
		text = append(append(append([]byte(nil), text[:at]...), "=="[:n]...), text[at:]...)
	case 2:
		vrt.Assume(len(d)%3 != 0)
		e := vrt.Bytes("more", 1, 4)
		if n == 2 {
			text = append(text, '\n')
		}
		text = append(text, vhEncode(e)...)
	}
	s1 := vrt.Int("size1", 1, 9)
	_, err, ended := vhDrain(NewDecoder(&vhSrc{b: text, fail: -1, zero: -1}), []int{s1}, 2*len(text)+8)
	vrt.Assert(ended && err != nil && err != io.EOF, "padding within the text is an error")
	vrt.Reach("rejected")
}

// VH_B04_truncated: text that ends inside a group of four is an error.
func VH_B04_truncated() {
	max := vhMax([]int{9}, []int{15})
	d := vrt.Bytes("data", 1, max)
	text := vhEncode(d)
	at := vrt.Int("at", 1, 20)
	vrt.Assume(vrt.And(at < len(text)-1, at%4 != 0))
	s1 := vrt.Int("size1", 1, 9)
	_, err, ended := vhDrain(NewDecoder(&vhSrc{b: text[:at], fail: -1, zero: -1}), []int{s1}, 2*len(d)+8)
	vrt.Assert(ended && err != nil && err != io.EOF, "truncated text is an error")
	vrt.Reach("rejected")
}

// VH_B04_any: arbitrary text never crashes the decoder or keeps it busy.
func VH_B04_any() {
	max := vhMax([]int{4, 6}, []int{4, 8})
	text := vrt.Bytes("text", 0, max)
	s1 := []int{1, 2, 3, 5, 16}[vrt.Choose("size1", 5)]
	_, _, ended := vhDrain(NewDecoder(&vhSrc{b: text, fail: -1, zero: -1}), []int{s1}, 2*max+8)
	vrt.Assert(ended, "reading ends")
	vrt.Reach("ended")
}
