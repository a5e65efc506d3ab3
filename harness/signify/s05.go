package signify

import (
	"crypto/sha512"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_S05_pass: a key protected with one passphrase is usable with exactly
// that passphrase.
func VH_S05_pass() {
	max := 4
	if vrt.Thorough() {
		max = 10
	}
	p := vrt.Bytes("pass", 1, max)
	q := vrt.Bytes("tried", 0, max)
	vhSetPrompt(q)
	err := GenerateKey(vhKey, p, &GenerateOptions{Rounds: 1})
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, []byte("m"), 0644)
	same := vrt.EqBytes(p, q)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	vrt.Assert(priv.IsEncrypted(), "key is marked encrypted")
	if vrt.Choose("used", 2) == 1 {
		// the right one was used before
		vhSetPrompt(p)
		vrt.Assert(Sign(vhSec, vhMsg, vhOut) == nil, "signs with the right passphrase")
		_, err = priv.ToBox()
		vrt.Assert(err == nil, "converts with the right passphrase")
		priv, err = LoadPrivateKey(vhSec)
		vrt.Assert(err == nil, "key loads")
		vhSetPrompt(q)
	}
	err = Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == same, "signs exactly with the right passphrase")
	vrt.Assert(vhPrompts == 1, "asked once")
	vrt.Assert((vos.Lookup(vhSig) != nil) == same, "signature exactly with the right passphrase")
	_, err = priv.ToBox()
	vrt.Assert((err == nil) == same, "decryption key exactly with the right passphrase")
	if same {
		vrt.Reach("right")
		err = Verify(vhPub, vhMsg, "")
		vrt.Assert(err == nil, "signature verifies")
	} else {
		vrt.Reach("wrong")
	}
}

// VH_S05_plain: without a passphrase the key is plain and never prompts.
func VH_S05_plain() {
	vhSetPrompt(nil)
	err := GenerateKey(vhKey, nil, nil)
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, vrt.Bytes("msg", 0, 8), 0644)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	vrt.Assert(!priv.IsEncrypted(), "key is not marked encrypted")
	vrt.Assert(priv.Check() == nil, "key passes its check")
	vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signs without asking")
	_, err = priv.ToBox()
	vrt.Assert(err == nil, "decryption key without asking")
	vrt.Assert(vhPrompts == 0, "never asked")
	vrt.Reach("done")
}

// VH_S05_stored: a protected file never holds the key in the clear.
func VH_S05_stored() {
	pass := [][]byte{[]byte("p"), []byte("correct horse"), []byte("\x00"), []byte("0123456789012345678901234567890123456789012345678901234567890123456789012")}[vrt.Choose("pass", 4)]
	var opts *GenerateOptions
	if r := vrt.Choose("rounds", 3); r > 0 {
		opts = &GenerateOptions{Rounds: r}
	}
	priv, pub, err := GenerateKeypair(pass, opts)
	vrt.Assert(err == nil && pub != nil, "key generation works")
	vrt.Assert(priv.Check() != nil, "the in-memory key is encrypted")
	vhSetPrompt(pass)
	err = GenerateKey(vhKey, pass, opts)
	vrt.Assert(err == nil, "key generation works")
	s := vhPayload(vhSec)
	k := s[40:104]
	sum := sha512.Sum512(k)
	vrt.Assert(!vrt.EqBytes(sum[:8], s[24:32]), "stored key is encrypted")
	p := vhPayload(vhPub)
	for i := range s {
		if i+8 <= len(s) {
			vrt.Assert(!vrt.EqBytes(s[i:i+8], p[10:18]), "no trace of the plain key")
		}
	}
	vos.Put(vhMsg, []byte("m"), 0644)
	vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signs with the passphrase")
	vrt.Reach("done")
}

// VH_S05_rounds: whatever the round count asked for, a request to protect a
// key can never produce a plain one.
func VH_S05_rounds() {
	r := vrt.Int("rounds", -1<<62, 1<<62)
	switch vrt.Case(2) {
	case 0:
		vrt.Assume(vrt.And(r >= -20, r <= 300))
	case 1:
		vrt.Assume(vrt.Or(r < 0, r > 300))
		vrt.NoSample() // many rounds
	}
	pass := []byte("pw")
	vhSetPrompt(pass)
	err := GenerateKey(vhKey, pass, &GenerateOptions{Rounds: r})
	if err == nil {
		s := vhPayload(vhSec)
		vrt.Assert(vrt.Or(s[4] != 0, vrt.Or(s[5] != 0, vrt.Or(s[6] != 0, s[7] != 0))), "marked encrypted")
		sum := sha512.Sum512(s[40:104])
		vrt.Assert(!vrt.EqBytes(sum[:8], s[24:32]), "stored key is encrypted")
		vrt.Reach("made")
	} else {
		vrt.Assert(vrt.Or(r <= 0, r >= 1<<32), "a positive round count works")
		vrt.Assert(len(vos.Files()) == 0, "no file on failure")
		vrt.Reach("refused")
	}
}

// VH_S05_promptfail: if the passphrase cannot be read nothing is signed.
func VH_S05_promptfail() {
	vhMake(vhPass(1))
	vos.Put(vhMsg, []byte("m"), 0644)
	vhSetPrompt(nil)
	vrt.Assert(Sign(vhSec, vhMsg, "") != nil, "failure reported")
	vrt.Assert(vos.Lookup(vhSig) == nil, "no signature")
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	b, err := priv.ToBox()
	vrt.Assert(err != nil && b == nil, "no decryption key")
	vrt.Reach("done")
}

// VH_S05_long: long passphrases: any change of one byte, shortened or
// lengthened ones.
func VH_S05_long() {
	n := []int{73, 300, 1025, 1<<16 + 1}[vrt.Case(4)]
	p := make([]byte, n)
	at := vrt.Int("at", 0, 1<<17)
	vrt.Assume(at < n)
	d := vrt.Byte("delta")
	k := []int{n, n - 1, n + 1, n / 2, 72, 64, 55}[vrt.Choose("len", 7)]
	q := make([]byte, n+1)
	q[at] ^= d
	vhSetPrompt(q[:k])
	err := GenerateKey(vhKey, p, &GenerateOptions{Rounds: 1})
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, []byte("m"), 0644)
	err = Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == vrt.And(k == n, d == 0), "signs exactly with the right passphrase")
	if err == nil {
		vrt.Reach("right")
	} else {
		vrt.Reach("wrong")
	}
}
