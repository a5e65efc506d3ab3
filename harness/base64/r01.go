package base64

import (
	"io"

	"github.com/kisom/psignify/internal/vrt"
)

// vhNest runs something inside the k-th call.
type vhNest struct {
	at, calls int
	run       func()
	done      bool
}

func (n *vhNest) call() {
	if n.done {
		return
	}
	if n.calls == n.at {
		n.done = true
		n.run()
	}
	n.calls++
}

type vhNestSink struct {
	vhSink
	vhNest
}

func (s *vhNestSink) Write(p []byte) (int, error) {
	// the bytes are looked at before and after the other operation ran
	before := append([]byte(nil), p...)
	s.vhNest.call()
	vrt.Assert(vrt.EqBytes(before, p), "bytes being written do not change")
	return s.vhSink.Write(p)
}

type vhNestSource struct {
	b []byte
	vhNest
}

func (s *vhNestSource) Read(p []byte) (int, error) {
	s.vhNest.call()
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func vhReadAll(r io.Reader, size int) []byte {
	var out []byte
	for i := 0; i < 400; i++ {
		p := make([]byte, size)
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if err != nil {
			vrt.Assert(err == io.EOF, "text decodes")
			return out
		}
	}
	vrt.Assert(false, "the decoder ends")
	return out
}

// VH_R01_streams: two encoders and two decoders, one step of each in turn.
func VH_R01_streams() {
	a := vrt.Bytes("a", 0, 6)
	b := vrt.Bytes("b", 0, 6)
	i := vrt.Int("cuta", 0, 6)
	j := vrt.Int("cutb", 0, 6)
	vrt.Assume(vrt.And(i <= len(a), j <= len(b)))
	sa, sb := &vhSink{fail: -1}, &vhSink{fail: -1}
	ea := NewEncoder(sa)
	_, err1 := ea.Write(a[:i])
	eb := NewEncoder(sb)
	_, err2 := eb.Write(b[:j])
	_, err3 := ea.Write(a[i:])
	_, err4 := eb.Write(b[j:])
	err5 := ea.Close()
	err6 := eb.Close()
	vrt.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil && err5 == nil && err6 == nil, "no error on a working writer")
	vrt.Assert(vrt.EqBytes(sa.b, vhEncode(a)), "first text is the canonical one")
	vrt.Assert(vrt.EqBytes(sb.b, vhEncode(b)), "second text is the canonical one")
	vrt.Reach("encoded")
}

// VH_R01_decoders: two decoders, one read of each in turn.
func VH_R01_decoders() {
	a := vrt.Bytes("a", 1, 5)
	b := vrt.Bytes("b", 1, 5)
	da := NewDecoder(&vhNestSource{b: vhEncode(a), vhNest: vhNest{at: -1}})
	db := NewDecoder(&vhNestSource{b: vhEncode(b), vhNest: vhNest{at: -1}})
	size := []int{1, 2, 4}[vrt.Choose("size", 3)]
	var oa, ob []byte
	for i := 0; i < 12; i++ {
		p, q := make([]byte, size), make([]byte, size)
		n, _ := da.Read(p)
		m, _ := db.Read(q)
		oa = append(oa, p[:n]...)
		ob = append(ob, q[:m]...)
	}
	vrt.Assert(vrt.EqBytes(oa, a), "first data come back")
	vrt.Assert(vrt.EqBytes(ob, b), "second data come back")
	vrt.Reach("decoded")
}

// VH_R01_inside: a stream is used while another one is inside a call of its
// destination or source.
func VH_R01_inside() {
	a := vrt.Bytes("a", 0, 9)
	b := vrt.Bytes("b", 0, 5)
	text := vhEncode(b)
	at := vrt.Int("when", 0, 12)
	dec := vrt.Choose("inner", 2) == 1
	sb := &vhSink{fail: -1}
	var ob []byte
	inner := func() {
		if dec {
			ob = vhReadAll(NewDecoder(&vhNestSource{b: text, vhNest: vhNest{at: -1}}), 2)
			return
		}
		e := NewEncoder(sb)
		e.Write(b)
		e.Close()
	}
	nest := vhNest{at: at, run: inner}
	if vrt.Choose("outer", 2) == 0 {
		s := &vhNestSink{vhSink{fail: -1}, nest}
		e := NewEncoder(s)
		_, err1 := e.Write(a)
		err2 := e.Close()
		if !s.done {
			vrt.Stop()
		}
		vrt.Assert(err1 == nil && err2 == nil, "no error on a working writer")
		vrt.Assert(vrt.EqBytes(s.b, vhEncode(a)), "outer text is the canonical one")
	} else {
		s := &vhNestSource{b: vhEncode(a), vhNest: nest}
		o := vhReadAll(NewDecoder(s), 4)
		if !s.done {
			vrt.Stop()
		}
		vrt.Assert(vrt.EqBytes(o, a), "outer data come back")
	}
	if dec {
		vrt.Assert(vrt.EqBytes(ob, b), "inner data come back")
	} else {
		vrt.Assert(vrt.EqBytes(sb.b, text), "inner text is the canonical one")
	}
	vrt.Reach("nested")
}

// VH_R01_buffers: encoders and decoders write to nothing that others can
// reach, and do not keep the caller's bytes.
func VH_R01_buffers() {
	a := vrt.Bytes("a", 0, 9)
	text := vhEncode(a)
	vrt.Guard("package variables", a, text)
	e := NewEncoder(&vhSink{fail: vrt.Int("fail", -1, 6)})
	_, err := e.Write(a)
	if err == nil {
		e.Close()
	}
	d := NewDecoder(&vhNestSource{b: text, vhNest: vhNest{at: -1}})
	vhReadAll(d, 4)
	d.Close()
	vrt.Unguard()
	vrt.Reach("unshared")
}
