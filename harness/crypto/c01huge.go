package crypto

import (
	"io"

	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/nacl/box"
)

// vhTwin compares every box of a sealed message of zeros with its own sealing
// under the running counter and remembers the lengths only.
type vhTwin struct {
	priv *signify.Private
	s    *[32]byte
	head []byte
	n    int
	last int
	bad  bool
}

func (t *vhTwin) Write(p []byte) (int, error) {
	if t.head == nil {
		t.head = vhClone(p)
		if len(p) == vhHdr {
			t.s = vhShared(t.priv, p[8:40])
		}
		return len(p), nil
	}
	if t.s == nil || len(p) < vhOver || len(p) > vhOver+vhChunk || t.last == vhOver+3 {
		t.bad = true
		return len(p), nil
	}
	want := box.SealAfterPrecomputation(nil, vhNull[:len(p)-vhOver], vhNonce(t.n), t.s)
	t.bad = t.bad || !vrt.EqBytes(want, p)
	t.n, t.last = t.n+1, len(p)
	return len(p), nil
}

// vhReplay delivers again what a vhTwin was given.
type vhReplay struct {
	t   *vhTwin
	buf []byte
	i   int
}

func (f *vhReplay) Read(p []byte) (int, error) {
	if len(f.buf) == 0 {
		if f.i == f.t.n {
			return 0, io.EOF
		}
		k := vhChunk
		if f.i == f.t.n-1 {
			k = f.t.last - vhOver
		}
		f.buf = box.SealAfterPrecomputation(nil, vhNull[:k], vhNonce(f.i), f.t.s)
		f.i++
	}
	k := copy(p, f.buf)
	f.buf = f.buf[k:]
	return k, nil
}

// VH_C01_huge: a message of zeros of more than 65536 chunks is sealed and
// opened; the boxes are made a second time for opening, after every one of
// them was found equal to what sealing wrote.
func VH_C01_huge() {
	vrt.Long()
	priv, pub := vhMake(nil)
	n := 65539
	size := (n-1)*vhChunk + 3
	t := &vhTwin{priv: priv}
	err := seal(pub, &vhZeros{size}, size, t)
	vrt.Assert(err == nil, "sealing works")
	if t.bad || t.s == nil {
		vrt.Reach("another division into boxes")
		return
	}
	vrt.Assert(t.n == n && t.last == vhOver+3, "the whole message is sealed")
	out := &vhTally{}
	err = open(priv, &vhReplay{t: t, buf: t.head}, out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(out.n == size, "the whole message comes back")
	vrt.Reach("done")
}
