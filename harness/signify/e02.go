package signify

import (
	"crypto/sha512"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"golang.org/x/crypto/curve25519"
)

// vhClamped is the X25519 scalar of an Ed25519 seed.
func vhClamped(seed []byte) []byte {
	h := sha512.Sum512(seed)
	s := vhClone(h[:32])
	s[0] &= 248
	s[31] &= 127
	s[31] |= 64
	return s
}

// VH_E02_scalar: the decryption key of a secret key file with any seed is the
// clamped first half of the seed's SHA-512 digest.
func VH_E02_scalar() {
	vhSigned(nil, []byte("m"))
	p := vhPayload(vhSec)
	k := vrt.Bytes("key", 64, 64)
	sum := sha512.Sum512(k)
	q := append(append(append(vhClone(p[:24]), sum[:8]...), p[32:40]...), k...)
	vhPut(vhSec, q)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	if err != nil {
		return
	}
	b, err := priv.ToBox()
	vrt.Assert(err == nil && b != nil, "key converts")
	if err != nil || b == nil {
		return
	}
	vrt.Assert(vrt.EqBytes(b[:], vhClamped(k[:32])), "decryption key is the clamped digest of the seed")
	vrt.Assert(b[0]&7 == 0 && b[31]&0xc0 == 0x40, "decryption key is clamped")
	c, err := priv.ToBox()
	vrt.Assert(err == nil && vrt.EqBytes(b[:], c[:]), "converting twice gives the same key")
	vrt.Reach("done")
}

// VH_E02_two: converting one key does not influence another one, even with
// the same key number, salt or checksum.
func VH_E02_two() {
	vhSigned(nil, []byte("m"))
	p := vhPayload(vhSec)
	var keys [2][]byte
	var privs [2]*Private
	num := vrt.Bytes("num", 16, 16)
	for i := range keys {
		keys[i] = vrt.Bytes("key", 64, 64)
		sum := sha512.Sum512(keys[i])
		q := append(append(append(vhClone(p[:24]), sum[:8]...), num[8*i:8*i+8]...), keys[i]...)
		vhPut(vhSec, q)
		priv, err := LoadPrivateKey(vhSec)
		vrt.Assert(err == nil, "key loads")
		if err != nil {
			return
		}
		privs[i] = priv
	}
	a, err1 := privs[0].ToBox()
	b, err2 := privs[1].ToBox()
	c, err3 := privs[0].ToBox()
	vrt.Assert(err1 == nil && err2 == nil && err3 == nil, "keys convert")
	if err1 != nil || err2 != nil || err3 != nil {
		return
	}
	vrt.Assert(vrt.EqBytes(a[:], vhClamped(keys[0][:32])), "decryption key is the clamped digest of the seed")
	vrt.Assert(vrt.EqBytes(b[:], vhClamped(keys[1][:32])), "decryption key is the clamped digest of the seed")
	vrt.Assert(vrt.EqBytes(c[:], vhClamped(keys[0][:32])), "decryption key is the clamped digest of the seed")
	for i := range a {
		a[i] = 0
	}
	c, err := privs[0].ToBox()
	vrt.Assert(err == nil && vrt.EqBytes(c[:], vhClamped(keys[0][:32])), "the result is the caller's")
	vrt.Reach("done")
}

// VH_E02_encrypted: the same behind a passphrase.
func VH_E02_encrypted() {
	vhMake(nil)
	plain := vhPayload(vhSec)
	vhMake(vhPass(1))
	seed := func() []byte {
		priv, err := LoadPrivateKey(vhSec)
		vrt.Assert(err == nil, "key loads")
		vrt.Assert(priv.decrypt(vhPass(1)) == nil, "key unlocks")
		return vhClone(priv.key[:32])
	}()
	_ = plain
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	if err != nil {
		return
	}
	if vrt.Choose("retry", 2) == 1 {
		vhSetPrompt([]byte("wrong"), vhPass(1))
		_, err := priv.ToBox()
		vrt.Assert(err != nil, "wrong passphrase refused")
	} else {
		vhSetPrompt(vhPass(1))
	}
	b, err := priv.ToBox()
	vrt.Assert(err == nil && b != nil, "key converts")
	if err != nil || b == nil {
		return
	}
	vrt.Assert(vrt.EqBytes(b[:], vhClamped(seed)), "decryption key is the clamped digest of the seed")
	for i := 0; i < 3; i++ {
		c, err := priv.ToBox()
		vrt.Assert(err == nil && c != nil, "key converts again")
		if err != nil || c == nil {
			return
		}
		vrt.Assert(vrt.EqBytes(c[:], vhClamped(seed)), "converting again gives the same key")
	}
	vrt.Reach("done")
}

// VH_E02_pair: both halves of a generated pair convert to a matching
// Curve25519 pair (fixed entropies).
func VH_E02_pair() {
	for i := 0; i < 4; i++ {
		vos.Del(vhSec)
		vos.Del(vhPub)
		vhMake(vhPass(i % 2))
		priv, err := LoadPrivateKey(vhSec)
		vrt.Assert(err == nil, "key loads")
		pub, err := LoadPublicKey(vhPub)
		vrt.Assert(err == nil, "key loads")
		b, err := priv.ToBox()
		vrt.Assert(err == nil, "secret half converts")
		c, err := pub.ToBox()
		vrt.Assert(err == nil, "public half converts")
		var want [32]byte
		curve25519.ScalarBaseMult(&want, b)
		vrt.Assert(vrt.EqBytes(want[:], c[:]), "the halves match")
	}
	vrt.Reach("done")
}
