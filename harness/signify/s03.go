package signify

import (
	stdb64 "encoding/base64"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

// vhResize cuts p to n bytes or extends it with the given bytes.
func vhResize(p []byte, n int, more []byte) []byte {
	return append(vhClone(p), more...)[:n]
}

// vhShape produces a payload of any length up to max: a prefix of the genuine
// one, or the genuine one followed by arbitrary bytes; with an optional
// change of the algorithm tag.
func vhShape(p []byte, max int) (q []byte, genuine bool) {
	n := vrt.Int("len", 0, max)
	tag := vrt.Bytes("tag", 2, 2)
	more := vrt.Bytes("more", max-len(p), max-len(p))
	r := append(vhClone(p), more...)
	r[0] ^= tag[0]
	r[1] ^= tag[1]
	return r[:n], vrt.And(n == len(p), vhZero(tag))
}

// VH_S03_siglen: a signature file with a payload of the wrong length or an
// unknown algorithm is rejected, whatever the length.
func VH_S03_siglen() {
	vhSigned(nil, []byte("m"))
	q, ok := vhShape(vhPayload(vhSig), 110)
	vhPut(vhSig, q)
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == ok, "accepted exactly when well-formed")
	vrt.ObserveBool("ok", err == nil)
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S03_publen: the same for public key files.
func VH_S03_publen() {
	vhSigned(nil, []byte("m"))
	q, ok := vhShape(vhPayload(vhPub), 80)
	vhPut(vhPub, q)
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert((err == nil) == ok, "accepted exactly when well-formed")
	vrt.ObserveBool("ok", err == nil)
	pub, err := LoadPublicKey(vhPub)
	vrt.Assert(vrt.Implies(ok, err == nil), "well-formed key loads")
	if err == nil {
		b, err := pub.ToBox()
		vrt.Assert(vrt.Implies(err == nil, ok), "malformed key is not used for encryption")
		vrt.Assert(vrt.Implies(err == nil, b != nil), "no key without an error")
	}
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S03_seclen: the same for secret key files: a malformed one never signs
// and never yields a decryption key.
func VH_S03_seclen() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhSigned(pass, []byte("m"))
	vos.Del(vhSig)
	q, ok := vhShape(vhPayload(vhSec), 140)
	vhPut(vhSec, q)
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == ok, "signs exactly when well-formed")
	vrt.ObserveBool("ok", err == nil)
	vrt.Assert((vos.Lookup(vhSig) != nil) == (err == nil), "no signature file on failure")
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(vrt.Implies(ok, err == nil), "well-formed key loads")
	if err == nil {
		_, err := priv.ToBox()
		vrt.Assert(vrt.Implies(err == nil, ok), "malformed key is not used for decryption")
	}
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S03_kdf: an encrypted key with an unknown key-derivation tag is refused.
func VH_S03_kdf() {
	vhSigned(vhPass(1), []byte("m"))
	vos.Del(vhSig)
	p := vhPayload(vhSec)
	d := vrt.Bytes("delta", 2, 2)
	p[2] ^= d[0]
	p[3] ^= d[1]
	vhPut(vhSec, p)
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == vhZero(d), "signs exactly when the KDF is the known one")
	priv, err := LoadPrivateKey(vhSec)
	if err == nil {
		_, err := priv.ToBox()
		vrt.Assert((err == nil) == vhZero(d), "decrypts exactly when the KDF is the known one")
	}
	vrt.Reach("done")
}

// VH_S03_raw: arbitrary file contents never crash the readers and are never
// accepted (they are too short to be anything).
func VH_S03_raw() {
	max := 9
	if vrt.Thorough() {
		max = 11
	}
	vhSigned(nil, []byte("m"))
	d := vrt.Bytes("file", 0, max)
	switch vrt.Case(3) {
	case 0:
		vos.Put(vhSig, d, 0644)
		err := Verify(vhPub, vhMsg, "")
		vrt.Assert(err != nil, "garbage signature rejected")
	case 1:
		vos.Put(vhPub, d, 0644)
		_, err := LoadPublicKey(vhPub)
		vrt.Assert(err != nil, "garbage public key rejected")
		err = Verify(vhPub, vhMsg, "")
		vrt.Assert(err != nil, "garbage public key rejected by Verify")
	case 2:
		vos.Put(vhSec, d, 0644)
		_, err := LoadPrivateKey(vhSec)
		vrt.Assert(err != nil, "garbage secret key rejected")
		err = Sign(vhSec, vhMsg, "")
		vrt.Assert(err != nil, "garbage secret key rejected by Sign")
	}
	vrt.Reach("done")
}

// VH_S03_rawline: a well-formed prefix of a file (comment, part of the
// payload) followed by arbitrary bytes.
func VH_S03_rawline() {
	vhSigned(nil, []byte("m"))
	path := []string{vhSig, vhPub, vhSec}[vrt.Case(3)]
	d := vhFile(path)
	keep := []int{0, 5, 19, 30, len(d) - 6, len(d) - 1}[vrt.Choose("keep", 6)]
	max := 4
	if vrt.Thorough() {
		max = 6
	}
	tail := vrt.Bytes("tail", 0, max)
	vos.Put(path, append(vhClone(d[:keep]), tail...), 0644)
	switch path {
	case vhSig, vhPub:
		err := Verify(vhPub, vhMsg, "")
		if err == nil {
			vrt.Reach("accepted")
			// what was accepted decodes to the genuine payload
			_, p := vhSplit(append(vhClone(vhFile(path)), '\n'))
			vrt.Assert(keep >= len(d)-6, "only near-genuine files are accepted")
			_ = p
		}
	default:
		LoadPrivateKey(path)
		Sign(vhSec, vhMsg, "")
	}
	vrt.Reach("done")
}

// VH_S03_b64: characters outside the alphabet, anywhere in the payload line,
// are rejected.
func VH_S03_b64() {
	vhSigned(nil, []byte("m"))
	path := []string{vhSig, vhPub, vhSec}[vrt.Case(3)]
	com, p := vhSplit(vhFile(path))
	p = vhClone(p)
	i := vrt.Concrete(vrt.Int("at", 0, len(p)-1))
	c := vrt.Byte("char")
	old := p[i]
	p[i] = c
	f := append(append(vhClone(com), '\n'), append(p, '\n')...)
	vos.Put(path, f, 0644)
	var err error
	if path == vhSec {
		_, err = LoadPrivateKey(path)
	} else {
		err = Verify(vhPub, vhMsg, "")
	}
	al := vrt.Or(vrt.Or(vrt.And(c >= 'A', c <= 'Z'), vrt.And(c >= 'a', c <= 'z')), vrt.Or(vrt.And(c >= '0', c <= '9'), vrt.Or(c == '+', vrt.Or(c == '/', c == '='))))
	nl := vrt.Or(c == '\n', c == '\r')
	if path != vhSec {
		if i < 53 {
			vrt.Assert(vrt.Implies(err == nil, c == old), "any changed character is noticed")
		}
	}
	vrt.Assert(vrt.Implies(err == nil, vrt.Or(al, nl)), "characters outside the alphabet are rejected")
	vrt.Assert(vrt.Implies(c == old, err == nil), "unchanged file accepted")
	vrt.Reach("done")
}

// VH_S03_extra: characters inserted into the payload line make the file
// unusable, wherever and whatever they are.
func VH_S03_extra() {
	vhSigned(nil, []byte("m"))
	path := []string{vhSig, vhPub, vhSec}[vrt.Case(3)]
	com, p := vhSplit(vhFile(path))
	at := []int{0, 1, 4, 30, len(p) - 4, len(p) - 1, len(p)}[vrt.Choose("at", 7)]
	n := vrt.Choose("count", 4) + 1
	ins := vrt.Bytes("chars", n, n)
	for i := range ins {
		vrt.Assume(vrt.And(ins[i] != '\n', ins[i] != '\r'))
	}
	q := append(append(vhClone(p[:at]), ins...), p[at:]...)
	f := append(append(vhClone(com), '\n'), append(q, '\n')...)
	vos.Put(path, f, 0644)
	if path == vhSec {
		_, err := LoadPrivateKey(path)
		vrt.Assert(err != nil, "key with extra characters refused")
		vos.Del(vhSig)
		vrt.Assert(Sign(path, vhMsg, "") != nil && vos.Lookup(vhSig) == nil, "key with extra characters does not sign")
	} else {
		vrt.Assert(Verify(vhPub, vhMsg, "") != nil, "extra characters are noticed")
		if path == vhPub {
			_, err := LoadPublicKey(path)
			vrt.Assert(err != nil, "key with extra characters refused")
		}
	}
	vrt.Reach("done")
}

// VH_S03_before: a line put before the payload makes the file unusable,
// unless it is a comment.
func VH_S03_before() {
	vhSigned(nil, []byte("m"))
	path := []string{vhSig, vhPub, vhSec}[vrt.Case(3)]
	com, p := vhSplit(vhFile(path))
	ins := append(vrt.Bytes("line", 0, 4), []string{"", "* not base64 *", "AAAA", " untrusted comment: x", "untrusted comment", vhHead}[vrt.Choose("more", 6)]...)
	comment := vrt.EqStr(string(ins), vhHead)
	f := append(vhClone(com), '\n')
	f = append(append(f, ins...), '\n')
	f = append(append(f, p...), '\n')
	vos.Put(path, f, 0644)
	var err error
	if path == vhSec {
		_, err = LoadPrivateKey(path)
	} else {
		err = Verify(vhPub, vhMsg, "")
	}
	vrt.Assert((err == nil) == comment, "a file with a foreign line before its payload is refused")
	vrt.Reach("done")
}

var _ = stdb64.StdEncoding
