package crypto

import (
	"bytes"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

func vhSealed(pub *signify.Public, m []byte) []byte {
	var enc bytes.Buffer
	err := seal(pub, bytes.NewReader(m), len(m), &enc)
	vrt.Assert(err == nil, "sealing works")
	return enc.Bytes()
}

// vhOpenCheck opens p: success only with the original message; otherwise
// nothing but whole leading chunks of it is ever released.
func vhOpenCheck(priv *signify.Private, p, m []byte) bool {
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(p), &out)
	o := out.Bytes()
	if err == nil {
		vrt.Assert(vrt.EqBytes(o, m), "an accepted file gives the original message")
		vrt.Reach("accepted")
		return true
	}
	vrt.Assert(len(o) <= len(m), "nothing but the message is released")
	if len(o) <= len(m) {
		vrt.Assert(vrt.And(vrt.EqBytes(o, m[:len(o)]), vrt.Or(len(o) == len(m), len(o)%vhChunk == 0)), "only authenticated chunks are released")
	}
	vrt.Reach("rejected")
	return false
}

// vhSeen opens a genuine message beforehand, or not.
func vhSeen(priv *signify.Private, p, m []byte) {
	if vrt.Choose("seen", 2) == 1 {
		var out bytes.Buffer
		err := open(priv, bytes.NewReader(p), &out)
		vrt.Assert(err == nil && vrt.EqBytes(out.Bytes(), m), "the genuine message opens")
	}
}

// vhSeenFile is the same for files.
func vhSeenFile(m []byte) {
	if vrt.Choose("seen", 2) == 1 {
		err := Open(vhSec, vhEnc, vhOut)
		vrt.Assert(err == nil && vrt.EqBytes(vhFile(vhOut), m), "the genuine message opens")
		vrt.Assert(vos.Remove(vhOut) == nil, "the output is there")
	}
}

// VH_C02_delta: any change of any bytes of a one-chunk message.
func VH_C02_delta() {
	priv, pub := vhMake(nil)
	m := vhText([]int{1, 30, 200}[vrt.Case(3)])
	p := vhSealed(pub, m)
	vhSeen(priv, p, m)
	d := vrt.Bytes("delta", len(p), len(p))
	ok := vhOpenCheck(priv, vhXor(p, d), m)
	vrt.Assert(ok == vhZero(d), "accepted exactly when unchanged")
}

// VH_C02_deltas: any change of any bytes of one part of a message of two
// chunks: header, first chunk, second chunk, or everything.
func VH_C02_deltas() {
	priv, pub := vhMake(nil)
	n := vhChunk + 5
	if vrt.Thorough() {
		n = 2 * vhChunk
	}
	m := vhText(n)
	p := vhSealed(pub, m)
	a := vhHdr + vhChunk + vhOver
	r := [][2]int{{0, vhHdr}, {vhHdr, a}, {a, len(p)}, {0, len(p)}}[vrt.Case(4)]
	d := vrt.Bytes("delta", r[1]-r[0], r[1]-r[0])
	q := append(append(vhClone(p[:r[0]]), vhXor(p[r[0]:r[1]], d)...), p[r[1]:]...)
	ok := vhOpenCheck(priv, q, m)
	vrt.Assert(ok == vhZero(d), "accepted exactly when unchanged")
}

// VH_C02_trunc: a message cut anywhere.
func VH_C02_trunc() {
	priv, pub := vhMake(nil)
	n := []int{0, 40, vhChunk + 5, 2 * vhChunk}[vrt.Case(4)]
	m := vhText(n)
	p := vhSealed(pub, m)
	vhSeen(priv, p, m)
	k := vrt.Int("cut", 0, 70000)
	vrt.Assume(k <= len(p))
	ok := vhOpenCheck(priv, p[:k], m)
	vrt.Assert(ok == (k == len(p)), "accepted exactly when complete")
}

// VH_C02_chunks: chunks dropped, repeated or in another order.
func VH_C02_chunks() {
	priv, pub := vhMake(nil)
	n := 3
	m := vhText(2*vhChunk + 100)
	p := vhSealed(pub, m)
	ch := [][]byte{}
	for i := 0; i < n; i++ {
		lo := vhHdr + i*(vhChunk+vhOver)
		hi := lo + vhChunk + vhOver
		if hi > len(p) {
			hi = len(p)
		}
		ch = append(ch, p[lo:hi])
	}
	k := vrt.Int("count", 0, 4)
	q := vhClone(p[:vhHdr])
	same := k == n
	for i := 0; i < k; i++ {
		j := vrt.Choose("chunk", n)
		if j != i {
			same = false
		}
		q = append(q, ch[j]...)
	}
	q[7] = byte(int(p[7]) + vrt.Int("header", 0, 2) - 1)
	same = vrt.And(same, q[7] == p[7])
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(q), &out)
	if err == nil {
		vrt.Assert(vrt.EqBytes(out.Bytes(), m), "an accepted file gives the original message")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(vrt.Not(same), "the unchanged file is accepted")
		vrt.Assert(bytes.HasPrefix(m, out.Bytes()), "only authenticated chunks are released, in order")
		vrt.Reach("rejected")
	}
}

// VH_C02_mix: chunks and headers of two messages to the same recipient do not
// mix.
func VH_C02_mix() {
	priv, pub := vhMake(nil)
	a, b := vhText(30), []byte("BBBBBBBBBBBBBBBBBBBBBBBBBBBBBB")
	p, q := vhSealed(pub, a), vhSealed(pub, b)
	vhSeen(priv, p, a)
	parts := [][]byte{p, q}
	var x []byte
	c := []int{vrt.Choose("count", 2), vrt.Choose("epub", 2), vrt.Choose("tag", 2), vrt.Choose("chunk", 2)}
	x = append(x, parts[c[0]][:8]...)
	x = append(x, parts[c[1]][8:40]...)
	x = append(x, parts[c[2]][40:72]...)
	x = append(x, parts[c[3]][72:]...)
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(x), &out)
	if err == nil {
		vrt.Assert(c[1] == c[2] && c[2] == c[3], "no mixture is accepted")
		vrt.Assert(vrt.EqBytes(out.Bytes(), [][]byte{a, b}[c[3]]), "the message comes back")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(out.Len() == 0, "nothing is released")
		vrt.Reach("rejected")
	}
}

// VH_C02_file: a changed character of an encrypted file.
func VH_C02_file() {
	vhMake(nil)
	m := vhText(20)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	f := vhClone(vhFile(vhEnc))
	vhSeenFile(m)
	at := vrt.Int("at", 0, 1<<12)
	vrt.Assume(at < len(f))
	at = vrt.Concrete(at)
	c := vrt.Byte("char")
	same := f[at] == c
	f[at] = c
	vos.Put(vhEnc, f, 0644)
	err := Open(vhSec, vhEnc, vhOut)
	out := vhFile(vhOut)
	if err == nil {
		vrt.Assert(vrt.EqBytes(out, m), "an accepted file gives the original message")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(vrt.Not(same), "the unchanged file is accepted")
		vrt.Assert(len(out) == 0 || vrt.EqBytes(out, m), "nothing unauthenticated is released")
		vrt.Reach("rejected")
	}
}

// VH_C02_filecut: a truncated encrypted file.
func VH_C02_filecut() {
	vhMake(nil)
	m := vhText(vrt.Choose("len", 3) * 20)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	f := vhFile(vhEnc)
	vhSeenFile(m)
	k := vrt.Int("cut", 0, 1<<12)
	vrt.Assume(k <= len(f))
	vos.Put(vhEnc, f[:k], 0644)
	err := Open(vhSec, vhEnc, vhOut)
	out := vhFile(vhOut)
	if err == nil {
		vrt.Assert(vrt.EqBytes(out, m), "an accepted file gives the original message")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(k < len(f), "the complete file is accepted")
		vrt.Assert(len(out) == 0 || vrt.EqBytes(out, m), "nothing unauthenticated is released")
		vrt.Reach("rejected")
	}
}

// VH_C02_key: another private key opens nothing.
func VH_C02_key() {
	priv, pub := vhMake(nil)
	m := vrt.Bytes("msg", 0, 40)
	p := vhSealed(pub, m)
	vhSeen(priv, p, m)
	other, _ := vhMake(vhPass(vrt.Choose("pass", 2)))
	var out bytes.Buffer
	err := open(other, bytes.NewReader(p), &out)
	vrt.Assert(err != nil, "not for this key")
	vrt.Assert(out.Len() == 0, "nothing is released")
	vrt.Reach("done")
}

// VH_C02_extra: data added after a sealed message make it fail.
func VH_C02_extra() {
	priv, pub := vhMake(nil)
	m := vhText([]int{0, 1, 30, vhChunk, 2 * vhChunk, vhChunk + 20}[vrt.Case(6)])
	p := vhSealed(pub, m)
	max := 40
	if vrt.Thorough() {
		max = 300
	}
	vhSeen(priv, p, m)
	x := vrt.Bytes("extra", 0, max)
	ok := vhOpenCheck(priv, append(vhClone(p), x...), m)
	vrt.Assert(ok == (len(x) == 0), "accepted exactly when nothing follows")
}

// VH_C02_again: a repetition of any part of a sealed message after its end.
func VH_C02_again() {
	priv, pub := vhMake(nil)
	m := vhText([]int{vhChunk, 2 * vhChunk}[vrt.Case(2)])
	p := vhSealed(pub, m)
	from := []int{0, vhHdr, vhHdr + vhChunk + vhOver}[vrt.Choose("from", 3)]
	if from >= len(p) {
		from = vhHdr
	}
	ok := vhOpenCheck(priv, append(vhClone(p), p[from:]...), m)
	vrt.Assert(!ok, "a message with repeated chunks is refused")
}

// VH_C02_fileextra: text added to an encrypted file.
func VH_C02_fileextra() {
	vhMake(nil)
	m := vhText([]int{0, 30, vhChunk}[vrt.Case(3)])
	vos.Put(vhMsg, m, 0644)
	err := Seal(vhPub, vhMsg, vhEnc)
	vrt.Assert(err == nil, "sealing works")
	x := vrt.Bytes("extra", 1, 4)
	blank, breaks := true, true
	for _, c := range x {
		blank = vrt.And(blank, c == '\n')
		breaks = vrt.And(breaks, vrt.Or(c == '\n', c == '\r'))
	}
	vos.Put(vhEnc, append(vhFile(vhEnc), x...), 0644)
	err = Open(vhSec, vhEnc, vhOut)
	vrt.Assert(vrt.Or(err == nil, !blank), "accepted when only line breaks were added")
	if err == nil {
		vrt.Assert(breaks, "refused when anything but line breaks was added")
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message")
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}
