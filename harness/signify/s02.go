package signify

import (
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
)

func vhSigned(pass, msg []byte) {
	vhMake(pass)
	vos.Put(vhMsg, msg, 0644)
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert(err == nil, "signing works")
	if err != nil {
		vrt.Stop()
	}
}

// vhSeen verifies the genuine signature beforehand, or not.
func vhSeen() {
	if vrt.Choose("seen", 2) == 1 {
		vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "the genuine signature verifies")
	}
}

// VH_S02_sig: no other signature payload is accepted (any change of any of
// the 74 bytes).
func VH_S02_sig() {
	vhSigned(nil, []byte("attack at dawn"))
	vhSeen()
	p := vhPayload(vhSig)
	d := vrt.Bytes("delta", len(p), len(p))
	vhPut(vhSig, vhXor(p, d))
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == vhZero(d), "accepted exactly when unchanged")
	vrt.ObserveBool("ok", err == nil)
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S02_keynum: any key number, and any other one in the signature.
func VH_S02_keynum() {
	num := vrt.Bytes("num", 8, 8)
	vrand.Next = func(call int, p []byte) {
		if len(p) == 8 {
			copy(p, num)
			return
		}
		for i := range p {
			p[i] = byte(17*call + 31*i)
		}
	}
	vhSigned(nil, []byte("attack at dawn"))
	vrand.Next = nil
	vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "the genuine signature is accepted")
	f := []string{vhSig, vhPub}[vrt.Choose("file", 2)]
	p := vhPayload(f)
	d := vrt.Bytes("delta", 8, 8)
	copy(p[2:10], vhXor(p[2:10], d))
	vhPut(f, p)
	vrt.Assert((Verify(vhPub, vhMsg, "") == nil) == vhZero(d), "accepted exactly when the key numbers match")
	vrt.Reach("done")
}

// VH_S02_pub: the signature verifies under no other public key file (any
// change of any of the 42 bytes).
func VH_S02_pub() {
	vhSigned(nil, []byte("attack at dawn"))
	vhSeen()
	p := vhPayload(vhPub)
	d := vrt.Bytes("delta", len(p), len(p))
	vhPut(vhPub, vhXor(p, d))
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == vhZero(d), "accepted exactly when unchanged")
	vrt.ObserveBool("ok", err == nil)
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S02_msg: the signature covers the whole message: every other message, of
// whatever length, is rejected.
func VH_S02_msg() {
	lo, hi := vhRange([][2]int{{0, 40}, {500, 530}, {4090, 4100}}, [][2]int{{0, 100}, {500, 530}, {4090, 4100}, {65530, 65540}})
	m := make([]byte, (lo+hi)/2)
	for i := range m {
		m[i] = byte(i*7 + i>>8)
	}
	vhSigned(nil, m)
	vhSeen()
	m2 := vrt.Bytes("msg", lo, hi)
	vos.Put(vhMsg, m2, 0644)
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == vrt.EqBytes(m, m2), "accepted exactly when the message is the signed one")
	vrt.ObserveBool("ok", err == nil)
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S02_any: two arbitrary messages; the signature of the first.
func VH_S02_any() {
	lo, hi := vhRange([][2]int{{0, 40}, {510, 514}}, [][2]int{{0, 300}, {4090, 4100}})
	a := vrt.Bytes("signed", lo, hi)
	b := vrt.Bytes("checked", lo, hi)
	vhSigned(vhPass(vrt.Choose("pass", 2)), a)
	vhSeen()
	vos.Put(vhMsg, b, 0644)
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == vrt.EqBytes(a, b), "accepted exactly when the message is the signed one")
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S02_joint: message, signature and public key all changed at once.
func VH_S02_joint() {
	m := []byte("attack at dawn")
	vhSigned(nil, m)
	vhSeen()
	s, k := vhPayload(vhSig), vhPayload(vhPub)
	ds := vrt.Bytes("dsig", len(s), len(s))
	dk := vrt.Bytes("dpub", len(k), len(k))
	m2 := vrt.Bytes("msg", 0, 20)
	vhPut(vhSig, vhXor(s, ds))
	vhPut(vhPub, vhXor(k, dk))
	vos.Put(vhMsg, m2, 0644)
	err := Verify(vhPub, vhMsg, "")
	// equal changes of the two key numbers go together unnoticed
	same := vrt.And(vhZero(dk[:2]), vrt.And(vhZero(ds[:2]), vrt.And(vrt.EqBytes(dk[2:10], ds[2:10]), vrt.And(vhZero(dk[10:]), vhZero(ds[10:])))))
	vrt.Assert((err == nil) == vrt.And(same, vrt.EqBytes(m, m2)), "accepted exactly when genuine")
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S02_long: long messages: any change of any one byte, any shortening, any
// lengthening.
func VH_S02_long() {
	n := []int{1 << 12, 1 << 16, 1<<20 + 1, 1<<28 + 3}[vrt.Case(4)]
	m := make([]byte, n)
	vhSigned(nil, m)
	vhSeen()
	at := vrt.Int("at", 0, 1<<29)
	vrt.Assume(at < n)
	d := vrt.Byte("delta")
	k := vrt.Int("len", 0, 1<<29)
	vrt.Assume(k <= n+1)
	m2 := make([]byte, n+1)
	m2[at] ^= d
	vos.Put(vhMsg, m2[:k], 0644)
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == vrt.And(k == n, d == 0), "accepted exactly when the message is the signed one")
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}
