package signify

import (
	"crypto/sha512"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
)

// vhDamage changes one region of the secret key file by a symbolic delta and
// reports whether anything changed.
func vhDamage(from, to int) bool {
	p := vhPayload(vhSec)
	d := vrt.Bytes("delta", to-from, to-from)
	copy(p[from:to], vhXor(p[from:to], d))
	vhPut(vhSec, p)
	return vhZero(d)
}

// VH_S06_damage: a damaged secret key never signs and never yields a
// decryption key.  Regions: checksum, key, salt, first and second half of the
// key.
func VH_S06_damage() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhSigned(pass, []byte("m"))
	vos.Del(vhSig)
	r := [][2]int{{24, 32}, {40, 104}, {40, 72}, {72, 104}}[vrt.Case(4)]
	ok := vhDamage(r[0], r[1])
	if len(pass) != 0 {
		// damage that happens to make the checksum match the stored bytes
		// is beyond the checksum's power
		p := vhPayload(vhSec)
		sum := sha512.Sum512(p[40:])
		vrt.Assume(vrt.Not(vrt.EqBytes(sum[:8], p[24:32])))
	}
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == ok, "signs exactly with the intact key")
	vrt.Assert((vos.Lookup(vhSig) != nil) == ok, "signature file exactly with the intact key")
	vrt.ObserveBool("signed", err == nil)
	priv, err := LoadPrivateKey(vhSec)
	if err == nil {
		b, err := priv.ToBox()
		vrt.Assert((err == nil) == ok, "decryption key exactly with the intact key")
		vrt.Assert(vrt.Implies(err != nil, b == nil), "no key with an error")
	} else {
		vrt.Assert(vrt.Not(ok), "intact key loads")
	}
	if ok {
		vrt.Reach("intact")
	} else {
		vrt.Reach("damaged")
	}
}

// VH_S06_salt: damage to the salt or the round count of a protected key.
func VH_S06_salt() {
	vhSigned(vhPass(1), []byte("m"))
	vos.Del(vhSig)
	var ok bool
	if vrt.Case(2) == 0 {
		ok = vhDamage(8, 24)
	} else {
		p := vhPayload(vhSec)
		c := vrt.Byte("rounds")
		vrt.Assume(c > 0)
		ok = c == p[7]
		p[7] = c
		vhPut(vhSec, p)
	}
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == ok, "signs exactly with the intact key")
	vrt.Assert((vos.Lookup(vhSig) != nil) == ok, "signature file exactly with the intact key")
	priv, err := LoadPrivateKey(vhSec)
	if err == nil {
		_, err := priv.ToBox()
		vrt.Assert((err == nil) == ok, "decryption key exactly with the intact key")
	}
	if ok {
		vrt.Reach("intact")
	} else {
		vrt.Reach("damaged")
	}
}

// VH_S06_check: Check accepts exactly the keys whose checksum is right.
func VH_S06_check() {
	vhMake(nil)
	p := vhPayload(vhSec)
	d := vrt.Bytes("delta", 64, 64)
	copy(p[40:], vhXor(p[40:], d))
	vhPut(vhSec, p)
	priv, err := LoadPrivateKey(vhSec)
	if err != nil {
		vrt.Assert(vrt.Not(vhZero(d)), "intact key loads")
		return
	}
	vrt.Assert((priv.Check() == nil) == vhZero(d), "check passes exactly with the intact key")
	sum := sha512.Sum512(p[40:])
	copy(p[24:32], sum[:8])
	vhPut(vhSec, p)
	priv, err = LoadPrivateKey(vhSec)
	vrt.Assert(err == nil && priv.Check() == nil, "check passes with the right checksum")
	vrt.Reach("done")
}

// VH_S06_zeros: keys whose checksum has a zero byte somewhere.
func VH_S06_zeros() {
	pos := vrt.Choose("pos", 8)
	seed := []int{182, 143, 157, 147, 39, 327, 54, 423}[pos]
	vrand.Next = func(call int, p []byte) {
		for i := range p {
			p[i] = 0
		}
		if call == 0 {
			p[2], p[3] = byte(seed>>8), byte(seed)
		}
	}
	vhMake(nil)
	vrand.Next = nil
	vos.Put(vhMsg, []byte("m"), 0644)
	p := vhPayload(vhSec)
	vrt.Assert(p[24+pos] == 0, "a zero in the checksum")
	d := vrt.Bytes("delta", 8, 8)
	copy(p[24:32], vhXor(p[24:32], d))
	vhPut(vhSec, p)
	vrt.Assert((Sign(vhSec, vhMsg, "") == nil) == vhZero(d), "signs exactly with the intact key")
	priv, err := LoadPrivateKey(vhSec)
	if err == nil {
		vrt.Assert((priv.Check() == nil) == vhZero(d), "check passes exactly with the intact key")
	}
	vrt.Reach("done")
}

// VH_S07_retry: after a failed attempt to unlock a key in memory, the right
// passphrase still unlocks it, to the same key.
func VH_S07_retry() {
	p := vhPass(1)
	wrong := 1 + vrt.Choose("wrong", 3)
	vhMake(p)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	ref, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	vhSetPrompt(p)
	want, err := ref.ToBox()
	vrt.Assert(err == nil, "unlocks")
	for i := 0; i < wrong; i++ {
		q := vrt.Bytes("tried", 0, 4)
		vhSetPrompt(q)
		b, err := priv.ToBox()
		vrt.Assert(err != nil && b == nil, "wrong passphrase refused")
		vrt.Assert(priv.Check() != nil, "still locked")
	}
	vhSetPrompt(p)
	got, err := priv.ToBox()
	vrt.Assert(err == nil, "right passphrase works after wrong ones")
	if err == nil && want != nil {
		vrt.Assert(vrt.EqBytes(got[:], want[:]), "and gives the right key")
	}
	vhSetPrompt(nil)
	got, err = priv.ToBox()
	vrt.Assert(err == nil, "stays unlocked")
	if err == nil && want != nil {
		vrt.Assert(vrt.EqBytes(got[:], want[:]), "and gives the right key again")
	}
	vrt.Reach("done")
}

// VH_S07_promptfail: the same after the prompt itself failed.
func VH_S07_promptfail() {
	p := vhPass(1)
	vhMake(p)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	n := vrt.Choose("failures", 3)
	for i := 0; i < n; i++ {
		vhSetPrompt(nil)
		_, err = priv.ToBox()
		vrt.Assert(err != nil, "failure reported")
	}
	vhSetPrompt(p)
	_, err = priv.ToBox()
	vrt.Assert(err == nil, "right passphrase works afterwards")
	vrt.Reach("done")
}
