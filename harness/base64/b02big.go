package base64

import (
	"io"

	"github.com/kisom/psignify/internal/vrt"
)

// vhLong is n symbolic bytes, or for very long data, symbolic bytes at both
// ends and before and after multiples of 2^16, and fixed ones elsewhere.
func vhLong(n int) []byte {
	if n <= 40000 {
		return vrt.Bytes("data", n, n)
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8*3 + i>>14*5)
	}
	copy(d, vrt.Bytes("first", 60, 60))
	copy(d[n-60:], vrt.Bytes("last", 60, 60))
	for i := 1 << 16; i+30 < n; i += 1 << 16 {
		copy(d[i-30:], vrt.Bytes("data", 60, 60))
	}
	return d
}

// VH_B01_huge: big writes after a short one, and big writes only.
func VH_B01_huge() {
	n := vhMax([]int{1000, 1024, 4096, 8192, 16401, 32769, 65650}, []int{1000, 1024, 4096, 8192, 16401, 32768, 40000, 65537, 65650, 100000, 131200, 262300})
	a := []int{0, 1, 2, 3, 53, 54, 57}[vrt.Choose("short", 7)]
	d := vhLong(n)
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	n1, err1 := e.Write(d[:a])
	n2, err2 := e.Write(d[a:])
	err3 := e.Close()
	vrt.Assert(err1 == nil && err2 == nil && err3 == nil, "no error on a working writer")
	vrt.Assert(n1 == a && n2 == len(d)-a, "everything taken")
	want := vhEncode(d)
	vrt.Assert(len(s.b) == len(want), "length of the encoded text")
	for i := 0; i < len(want) && len(s.b) == len(want); i += 16384 {
		end := i + 16384
		if end > len(want) {
			end = len(want)
		}
		vrt.Assert(vrt.EqBytes(s.b[i:end], want[i:end]), "encoded text is the canonical one")
	}
	vrt.Reach("encoded")
}

// VH_B02_huge: big writes, or big copies, to a destination that may fail.
func VH_B02_huge() {
	n := vhMax([]int{1000, 1024, 4096, 16401}, []int{1000, 1024, 4096, 8192, 16401, 32769})
	d := vrt.Bytes("data", n, n)
	keep := append([]byte(nil), d...)
	calls := n/3 + n/54
	s := &vhSink{fail: []int{-1, 0, 1, calls / 2, calls - 1, calls, calls + 1}[vrt.Choose("fail", 7)], keep: vrt.Choose("kept", 2)}
	e := NewEncoder(s)
	var k int
	var err error
	if vrt.Choose("copy", 2) == 0 {
		k, err = e.Write(d)
	} else {
		var c int64
		c, err = io.Copy(e, &vhSrc{b: d, fail: -1, zero: -1})
		k = int(c)
	}
	vrt.Assert(vrt.EqBytes(d, keep), "Write does not modify its argument")
	vrt.Assert(k >= 0 && k <= n, "byte count in range")
	vrt.Assert(err != nil || k == n, "a short count comes with an error")
	if err == nil {
		err = e.Close()
	}
	if s.fail >= 0 && s.calls > s.fail {
		vrt.Assert(err != nil, "a failed write of the underlying writer is reported")
		vrt.Reach("failed")
		return
	}
	vrt.Assert(err == nil, "no error without a failure")
	vrt.Assert(vrt.EqBytes(s.b, vhEncode(keep)), "nothing is lost")
	vrt.Reach("ok")
}

// VH_B03_huge: long texts, big buffers.
func VH_B03_huge() {
	n := vhMax([]int{1000, 1025, 4096, 16401}, []int{1000, 1024, 4096, 8192, 16401, 32769})
	d := vrt.Bytes("data", n, n)
	size := []int{333, 1024, 4096, 16401, 65536}[vrt.Choose("size", 5)]
	src := &vhSrc{b: vhEncode(d), fail: -1, zero: -1}
	manners := 4
	if n > 10000 && !vrt.Thorough() {
		manners = 2
	}
	switch vrt.Choose("manners", manners) {
	case 1:
		src.max = 1
	case 2:
		src.eofWith = true
	case 3:
		vhAnyErr()
		src.fail = []int{0, 1, 700, 1025, n, n + 1, len(src.b) - 2}[vrt.Choose("at", 7)]
	}
	out, err, ended := vhDrain(NewDecoder(src), []int{size}, n/size*2+8)
	vrt.Assert(ended, "the end of the data is reported")
	if src.fail >= 0 {
		vrt.Assert(err != nil && err != io.EOF, "a failed read of the underlying reader is reported")
		vrt.Assert(len(out) <= n && vrt.EqBytes(out, d[:len(out)]), "the bytes before the failure are the data")
		vrt.Reach("failed")
		return
	}
	vrt.Assert(err == io.EOF, "the end of the data is io.EOF")
	vrt.Assert(vrt.EqBytes(out, d), "the bytes read are the data")
	vrt.Reach("read")
}

// VH_B04_huge: damage in long texts, read with big buffers.
func VH_B04_huge() {
	n := vhMax([]int{1000, 1025, 4096}, []int{1000, 1024, 4096, 8192, 16401})
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8*3)
	}
	text := vhEncode(d)
	at := []int{0, 71, 72, n / 2, n, len(text) - 80, len(text) - 9}[vrt.Choose("base", 7)] + []int{0, 1, 2, 5}[vrt.Choose("at", 4)]
	size := []int{54, 1024, 4096, 65536}[vrt.Choose("size", 4)]
	what := vrt.Choose("what", 3)
	c := vrt.Byte("char")
	switch what {
	case 0:
		vrt.Assume(vhForeign(c))
		vrt.Assume(text[at] != '\n')
		text[at] = c
	case 1:
		vrt.Assume(vhForeign(c))
		text = append(append(append([]byte(nil), text[:at]...), c), text[at:]...)
	case 2:
		k := 0
		for _, x := range text[:at] {
			if x != '\n' {
				k++
			}
		}
		vrt.Assume(k%4 != 0)
		text = text[:at]
	}
	out, err, ended := vhDrain(NewDecoder(&vhSrc{b: text, fail: -1, zero: -1}), []int{size}, n/size*2+8)
	vrt.Assert(ended && err != nil && err != io.EOF, "damage is an error")
	vrt.Assert(len(out) <= n && vrt.EqBytes(out, d[:len(out)]), "only the data before it is released")
	vrt.Reach("rejected")
}

// VH_B01_calls: many small writes.
func VH_B01_calls() {
	n := []int{700, 66000}[vrt.Case(2)]
	k := []int{1, 2, 4, 7}[vrt.Choose("size", 4)]
	if n > 1000 {
		vrt.Assume(k == 1)
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8*3 + i>>14*5)
	}
	copy(d, vrt.Bytes("first", 60, 60))
	copy(d[n-60:], vrt.Bytes("last", 60, 60))
	s := &vhSink{fail: -1}
	e := NewEncoder(s)
	for i := 0; i < n; i += k {
		end := i + k
		if end > n {
			end = n
		}
		m, err := e.Write(d[i:end])
		vrt.Assert(m == end-i && err == nil, "everything taken")
	}
	vrt.Assert(e.Close() == nil, "closing works")
	want := vhEncode(d)
	vrt.Assert(len(s.b) == len(want), "length of the encoded text")
	for i := 0; i < len(want) && len(s.b) == len(want); i += 16384 {
		end := i + 16384
		if end > len(want) {
			end = len(want)
		}
		vrt.Assert(vrt.EqBytes(s.b[i:end], want[i:end]), "encoded text is the canonical one")
	}
	vrt.Reach("encoded")
}

// VH_B03_calls: many reads with small buffers.
func VH_B03_calls() {
	n := []int{900, 66000}[vrt.Case(2)]
	k := []int{1, 2, 4, 5, 7, 53, 54, 55}[vrt.Choose("size", 8)]
	if n > 1000 {
		vrt.Assume(k == 1)
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8*3 + i>>14*5)
	}
	src := &vhSrc{b: vhEncode(d), fail: -1, zero: -1}
	r := NewDecoder(src)
	out := make([]byte, 0, n+10)
	buf := make([]byte, k)
	for i := 0; ; i++ {
		m, err := r.Read(buf)
		out = append(out, buf[:m]...)
		if err == io.EOF {
			break
		}
		vrt.Assert(err == nil && i <= n+3, "reading works")
		if err != nil {
			return
		}
	}
	vrt.Assert(vrt.EqBytes(out, d), "the data come back")
	vrt.Reach("decoded")
}
