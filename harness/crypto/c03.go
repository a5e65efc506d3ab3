package crypto

import (
	"bytes"
	"encoding/binary"
	"io"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

func vhChunksOf(p []byte) [][]byte {
	var r [][]byte
	for p = p[vhHdr:]; len(p) > 0; {
		n := vhChunk + vhOver
		if n > len(p) {
			n = len(p)
		}
		r = append(r, p[:n])
		p = p[n:]
	}
	return r
}

// VH_C03_fresh: sealing the same message twice gives unrelated files: the
// ephemeral key is fresh whenever the entropy source is.
func VH_C03_fresh() {
	_, pub := vhMake(nil)
	m := vrt.Bytes("msg", 1, 40)
	vrand.Given = nil
	p := vhClone(vhSealed(pub, m))
	n := len(vrand.Given)
	q := vhSealed(pub, m)
	total := 0
	for _, g := range vrand.Given[:n] {
		total += len(g)
	}
	vrt.Assert(total >= 32, "32 bytes of entropy per sealing")
	vrt.Assert(len(vrand.Given) > n, "fresh entropy for every sealing")
	vrt.Assert(len(p) == len(q) && len(p) == vhHdr+vhOver+len(m), "size")
	vrt.Assert(vrt.Not(vrt.EqBytes(p[8:40], q[8:40])), "fresh ephemeral key")
	vrt.Assert(vrt.Not(vrt.EqBytes(p[40:72], q[40:72])), "fresh header tag")
	vrt.Assert(vrt.Not(vrt.EqBytes(p[72:88], q[72:88])), "fresh box")
	vrt.Reach("done")
}

// VH_C03_short: the same when the entropy source delivers its bytes in pieces.
func VH_C03_short() {
	vhMake(nil)
	vos.Put(vhMsg, []byte("hello"), 0644)
	pos := 0
	vrand.Next = func(call int, p []byte) {
		for i := range p {
			p[i] = byte(pos*7 + 1)
			pos++
		}
	}
	n := vrt.Choose("pieces", 2) * 3
	vrand.Calls, vrand.Given = 0, nil
	vrand.Short = func(call, want int) int {
		if n == 0 {
			return 1
		}
		if call >= n {
			return 0
		}
		return []int{1, want / 2, want - 1, want}[vrt.Choose("piece", 4)]
	}
	if Seal(vhPub, vhMsg, "") != nil {
		vrt.Reach("refused")
		return
	}
	p := vhUnstd(vhFile(vhEnc)[len(vhHead):])
	vrt.Assert(len(p) == vhHdr+vhOver+5, "size")
	var all []byte
	for _, g := range vrand.Given {
		all = append(all, g...)
	}
	found := false
	for i := 0; i+32 <= len(all); i++ {
		var sk, pk [32]byte
		copy(sk[:], all[i:])
		curve25519.ScalarBaseMult(&pk, &sk)
		found = found || vrt.EqBytes(pk[:], p[8:40])
	}
	vrt.Assert(found, "the ephemeral key is made of fresh entropy")
	vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
	vrt.Reach("done")
}

// VH_C03_chunks: equal chunks of one message never give equal boxes (no nonce
// is used twice).
func VH_C03_chunks() {
	priv, pub := vhMake(nil)
	n := 3
	if vrt.Thorough() {
		n = 6
	}
	m := make([]byte, n*vhChunk)
	if vrt.Choose("content", 2) == 1 {
		b := vrt.Byte("byte")
		for i := range m {
			m[i] = b
		}
	}
	p := vhSealed(pub, m)
	ch := vhChunksOf(p)
	vrt.Assert(len(ch) == n, "number of chunks")
	for i := range ch {
		for j := 0; j < i; j++ {
			vrt.Assert(vrt.Not(vrt.EqBytes(ch[i][:16], ch[j][:16])), "equal chunks, different boxes")
		}
	}
	_ = priv
	vrt.Reach("done")
}

// VH_C03_entropyfail: no file is sealed when the entropy source fails.
func VH_C03_entropyfail() {
	vhMake(nil)
	vos.Put(vhMsg, vhText(40), 0644)
	vrand.Calls = 0
	vrand.FailCall = vrt.Int("fail", 0, 4)
	err := Seal(vhPub, vhMsg, "")
	if vrand.Calls > vrand.FailCall {
		vrt.Assert(err != nil, "entropy failure reported")
		vrt.Assert(len(vhFile(vhEnc)) <= len(vhHead)+1, "nothing is written")
		vrt.Reach("failed")
	} else {
		vrt.Assert(err == nil, "sealing works")
		vrt.Reach("worked")
	}
}

// VH_C03_many: nonces beyond the first byte: 256 chunks and more.
func VH_C03_many() {
	priv, pub := vhMake(nil)
	n := 258
	m := make([]byte, (n-1)*vhChunk+3)
	p := vhSealed(pub, m)
	s := vhShared(priv, p[8:40])
	ch := vhChunksOf(p)
	vrt.Assert(len(ch) == n, "number of chunks")
	for _, i := range []int{0, 1, 254, 255, 256, 257} {
		pl, ok := box.OpenAfterPrecomputation(nil, ch[i], vhNonce(i), s)
		vrt.Assert(ok, "chunk is sealed under its own counter")
		vrt.Assert(len(pl) == vhChunk || i == n-1, "chunk length")
	}
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(p), &out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(out.Len() == len(m), "the message comes back")
	vrt.Reach("done")
}

// vhEphemeral finds the ephemeral secret among the delivered entropy.
func vhEphemeral(epub []byte) bool {
	for _, g := range vrand.Given {
		if len(g) != 32 {
			continue
		}
		var sk, pk [32]byte
		copy(sk[:], g)
		curve25519.ScalarBaseMult(&pk, &sk)
		if vrt.EqBytes(pk[:], epub) {
			return true
		}
	}
	return false
}

// VH_C04_format: the sealed format, bit by bit.
func VH_C04_format() {
	lo, hi := vhRange([][2]int{{1, 60}, {vhChunk - 1, vhChunk + 2}, {2 * vhChunk, 2*vhChunk + 1}}, [][2]int{{1, 200}, {vhChunk - 4, vhChunk + 4}, {2*vhChunk - 2, 2*vhChunk + 2}, {4*vhChunk - 1, 4*vhChunk + 1}})
	priv, pub := vhMake(vhPass(0))
	m := vrt.Bytes("msg", lo, hi)
	vrand.Given = nil
	p := vhSealed(pub, m)
	n := (len(m) + vhChunk - 1) / vhChunk
	vrt.Assert(len(p) == vhHdr+len(m)+n*vhOver, "size")
	if len(p) < vhHdr {
		return
	}
	vrt.Assert(binary.BigEndian.Uint64(p[:8]) == uint64(n), "chunk count, big endian")
	vrt.Assert(vhEphemeral(p[8:40]), "ephemeral public key of a fresh secret")
	s := vhShared(priv, p[8:40])
	tag := auth.Sum(p[:40], s)
	vrt.Assert(vrt.EqBytes(tag[:], p[40:72]), "header tag")
	rest, at := p[vhHdr:], 0
	for i := 0; i < n; i++ {
		k := len(m) - at
		if k > vhChunk {
			k = vhChunk
		}
		pl, ok := box.OpenAfterPrecomputation(nil, rest[:k+vhOver], vhNonce(i), s)
		vrt.Assert(ok, "chunk sealed under its counter")
		vrt.Assert(vrt.EqBytes(pl, m[at:at+k]), "chunk content")
		rest = rest[k+vhOver:]
		at += k
	}
	vrt.Reach("done")
}

// VH_C04_file: an encrypted file is a comment line and base64 in lines of 72.
func VH_C04_file() {
	priv, _ := vhMake(nil)
	m := vhText([]int{1, 20, 54, 55, 200, 1000}[vrt.Choose("len", 6)])
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	f := vhFile(vhEnc)
	vrt.Assert(bytes.HasPrefix(f, []byte(vhHead)), "comment line")
	body := f[len(vhHead):]
	p := vhUnstd(body)
	vrt.Assert(len(p) == vhHdr+vhOver+len(m), "size")
	vrt.Assert(vrt.EqBytes(vhStd(p), body), "base64 layout")
	if len(p) < vhHdr {
		return
	}
	s := vhShared(priv, p[8:40])
	pl, ok := box.OpenAfterPrecomputation(nil, p[vhHdr:], vhNonce(0), s)
	vrt.Assert(ok && vrt.EqBytes(pl, m), "content")
	vrt.Reach("done")
}

// vhForge seals a message by the definition of the format.
func vhForge(m []byte, count uint64) []byte {
	priv, pub := vhLoad()
	_ = priv
	edpub, err := pub.ToBox()
	vrt.Assert(err == nil, "public key usable")
	var esk, epk, s [32]byte
	for i := range esk {
		esk[i] = byte(i*5 + 9)
	}
	curve25519.ScalarBaseMult(&epk, &esk)
	box.Precompute(&s, edpub, &esk)
	h := make([]byte, 40)
	binary.BigEndian.PutUint64(h, count)
	copy(h[8:], epk[:])
	tag := auth.Sum(h, &s)
	p := append(h, tag[:]...)
	for i := 0; len(m) > 0; i++ {
		k := len(m)
		if k > vhChunk {
			k = vhChunk
		}
		p = box.SealAfterPrecomputation(p, m[:k], vhNonce(i), &s)
		m = m[k:]
	}
	return p
}

// VH_C04_interop: a file made by another implementation of the format opens.
func VH_C04_interop() {
	lo, hi := vhRange([][2]int{{0, 30}, {vhChunk - 1, vhChunk + 1}, {2 * vhChunk, 2*vhChunk + 1}}, [][2]int{{0, 60}, {vhChunk - 4, vhChunk + 4}, {2*vhChunk - 2, 2*vhChunk + 2}})
	vhMake(vhPass(vrt.Choose("pass", 2)))
	m := vrt.Bytes("msg", lo, hi)
	vhSetPrompt(vhPass(1))
	n := (len(m) + vhChunk - 1) / vhChunk
	p := vhForge(m, uint64(n))
	priv, _ := vhLoad()
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(p), &out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(out.Bytes(), m), "the message comes back")
	if len(m) < 100 && vrt.Choose("file", 2) == 1 {
		f := append([]byte("untrusted comment: anything at all\n"), vhStd(p)...)
		vos.Put(vhEnc, f, 0644)
		err = Open(vhSec, vhEnc, vhOut)
		vrt.Assert(err == nil, "opening works")
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
	}
	vrt.Reach("done")
}

// VH_C03_messages: every one of many messages is sealed under its own
// ephemeral key.
func VH_C03_messages() {
	n := 150
	if vrt.Thorough() {
		n = 1100
	}
	_, pub := vhMake(nil)
	pos := 0
	vrand.Next = func(call int, p []byte) {
		// never the same twice
		for i := range p {
			p[i] = byte(pos >> uint(8*(i%3)))
		}
		pos++
	}
	var seen [][]byte
	for i := 0; i < n; i++ {
		p := vhSealed(pub, vhText(1+i%3))
		seen = append(seen, vhClone(p[8:40]))
	}
	for i := range seen {
		for j := 0; j < i; j++ {
			vrt.Assert(!vrt.EqBytes(seen[i], seen[j]), "a fresh ephemeral key for every message")
		}
	}
	vrt.Reach("done")
}

// vhHuge keeps the header and selected chunks only.
type vhHuge struct {
	n    int
	want []int
	got  [][]byte
	head []byte
}

func (h *vhHuge) Write(p []byte) (int, error) {
	if h.n == 0 {
		h.head = vhClone(p)
	}
	for _, i := range h.want {
		if h.n == i+1 {
			h.got = append(h.got, vhClone(p))
		}
	}
	h.n++
	return len(p), nil
}

var vhNull [vhChunk + 1]byte

// vhZeros delivers n zero bytes.
type vhZeros struct{ n int }

func (z *vhZeros) Read(p []byte) (int, error) {
	if z.n == 0 {
		return 0, io.EOF
	}
	k := len(p)
	if k > z.n {
		k = z.n
	}
	copy(p, vhNull[:k])
	z.n -= k
	return k, nil
}

// VH_C03_huge: nonces beyond the second byte: more than 65536 chunks.
func VH_C03_huge() {
	vrt.Long()
	priv, pub := vhMake(nil)
	n := 65539
	h := &vhHuge{want: []int{0, 1, 2, 255, 256, 32767, 32768, 65535, 65536, 65537}}
	err := seal(pub, &vhZeros{(n-1)*vhChunk + 3}, (n-1)*vhChunk+3, h)
	vrt.Assert(err == nil, "sealing works")
	vrt.Assert(len(h.got) == len(h.want), "a write for every chunk")
	s := vhShared(priv, h.head[8:40])
	for k, i := range h.want {
		pl, ok := box.OpenAfterPrecomputation(nil, h.got[k], vhNonce(i), s)
		vrt.Assert(ok && len(pl) == vhChunk, "chunk is sealed under its own counter")
	}
	vrt.Reach("done")
}

// vhForged delivers a sealed message of n chunks of zeros, made on demand.
type vhForged struct {
	s    *[32]byte
	buf  []byte
	i, n int
}

func (f *vhForged) Read(p []byte) (int, error) {
	if len(f.buf) == 0 {
		if f.i == f.n {
			return 0, io.EOF
		}
		f.buf = box.SealAfterPrecomputation(nil, vhNull[:vhChunk], vhNonce(f.i), f.s)
		f.i++
	}
	k := copy(p, f.buf)
	f.buf = f.buf[k:]
	return k, nil
}

// vhTally counts bytes.
type vhTally struct{ n int }

func (t *vhTally) Write(p []byte) (int, error) {
	if len(p) == vhChunk && !vrt.EqBytes(p, vhNull[:vhChunk]) {
		return 0, vhErr
	}
	t.n += len(p)
	return len(p), nil
}

// VH_C04_huge: a message of more than 65536 chunks made by another
// implementation opens.
func VH_C04_huge() {
	vrt.Long()
	priv, pub := vhMake(nil)
	n := 65539
	edpub, err := pub.ToBox()
	vrt.Assert(err == nil, "public key usable")
	var esk, epk, s [32]byte
	for i := range esk {
		esk[i] = byte(i*5 + 9)
	}
	curve25519.ScalarBaseMult(&epk, &esk)
	box.Precompute(&s, edpub, &esk)
	h := make([]byte, 40)
	binary.BigEndian.PutUint64(h, uint64(n))
	copy(h[8:], epk[:])
	tag := auth.Sum(h, &s)
	f := &vhForged{s: &s, buf: append(h, tag[:]...), n: n}
	out := &vhTally{}
	err = open(priv, f, out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(out.n == n*vhChunk, "the whole message")
	vrt.Reach("done")
}
