// Package vmodel holds idealised cryptography.  It is only ever executed
// symbolically: the engine redirects calls of the real primitives here.
// Fully concrete inputs are computed with the real primitives (Real*).
package vmodel

import (
	"encoding/binary"
	"errors"
	"hash"
	"io"

	"github.com/kisom/psignify/internal/vrt"
)

// Real primitives, computed natively by the engine on concrete bytes.
func RealSum512(b []byte) []byte                       { panic("engine") }
func RealEdPub(seed []byte) []byte                     { panic("engine") }
func RealEdSign(priv, msg []byte) []byte               { panic("engine") }
func RealEdVerify(pub, msg, sig []byte) bool           { panic("engine") }
func RealBcrypt(pw, salt []byte, rounds, n int) []byte { panic("engine") }
func RealX25519(scalar, point []byte) []byte           { panic("engine") }
func RealX25519Base(scalar []byte) []byte              { panic("engine") }
func RealHSalsa20(in, key []byte) []byte               { panic("engine") }
func RealSecretSeal(msg, nonce, key []byte) []byte     { panic("engine") }
func RealSecretOpen(box, nonce, key []byte) []byte     { panic("engine") } // nil: failure
func RealSecretOpenOK(box, nonce, key []byte) bool     { panic("engine") }
func RealAuthSum(msg, key []byte) []byte               { panic("engine") }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// ---- SHA-512: an injective function whose 8-byte prefix is injective too ----

type hrec struct {
	in, out []byte
	conc    bool
}

var hashes []hrec

func sum512(data []byte) []byte {
	conc := vrt.IsConcrete(data)
	if !conc {
		for i := range hashes {
			if len(hashes[i].in) == len(data) && vrt.EqBytes(hashes[i].in, data) {
				return hashes[i].out
			}
		}
	} else {
		for i := range hashes {
			if hashes[i].conc && vrt.EqBytes(hashes[i].in, data) {
				return hashes[i].out
			}
			if !hashes[i].conc && len(hashes[i].in) == len(data) && vrt.EqBytes(hashes[i].in, data) {
				out := RealSum512(data)
				vrt.Assume(vrt.EqBytes(hashes[i].out, out))
				return out
			}
		}
	}
	var out []byte
	if conc {
		out = RealSum512(data)
	} else {
		out = vrt.Fresh("sha512", 64)
	}
	for i := range hashes {
		vrt.Assume(vrt.Not(vrt.EqBytes(hashes[i].out[:8], out[:8])))
	}
	hashes = append(hashes, hrec{clone(data), out, conc})
	return out
}

func Sum512(data []byte) (r [64]byte) {
	copy(r[:], sum512(data))
	return
}

type shaState struct{ buf []byte }

func (s *shaState) Write(p []byte) (int, error) { s.buf = append(s.buf, p...); return len(p), nil }
func (s *shaState) Sum(b []byte) []byte         { return append(b, sum512(s.buf)...) }
func (s *shaState) Reset()                      { s.buf = nil }
func (s *shaState) Size() int                   { return 64 }
func (s *shaState) BlockSize() int              { return 128 }

func NewSHA512() hash.Hash { return &shaState{} }

// ---- Ed25519: strongly unforgeable signatures ----

type krec struct{ seed, pub []byte }
type srec struct {
	pub, msg, sig []byte
	good          bool
}

var keys []krec
var sigs []srec

func pubOf(seed []byte) []byte {
	for i := range keys {
		if vrt.EqBytes(keys[i].seed, seed) {
			return keys[i].pub
		}
	}
	var pub []byte
	if vrt.IsConcrete(seed) {
		pub = RealEdPub(seed)
	} else {
		pub = vrt.Fresh("edpub", 32)
	}
	for i := range keys {
		vrt.Assume(vrt.Not(vrt.EqBytes(keys[i].pub, pub)))
	}
	keys = append(keys, krec{clone(seed), pub})
	return pub
}

func EdNewKeyFromSeed(seed []byte) []byte {
	if len(seed) != 32 {
		panic("ed25519: bad seed length")
	}
	return append(clone(seed), pubOf(seed)...)
}

func EdGenerateKey(random io.Reader) (pub, priv []byte, err error) {
	seed := make([]byte, 32)
	if _, err := io.ReadFull(random, seed); err != nil {
		return nil, nil, err
	}
	k := EdNewKeyFromSeed(seed)
	return clone(k[32:]), k, nil
}

func EdSign(priv, msg []byte) []byte {
	if len(priv) != 64 {
		panic("ed25519: bad private key length")
	}
	if vrt.IsConcrete(priv) && vrt.IsConcrete(msg) {
		// valid iff the embedded public key belongs to the seed
		good := vrt.EqBytes(RealEdPub(priv[:32]), priv[32:])
		for i := range sigs {
			r := &sigs[i]
			if good && r.good && !vrt.IsConcrete(r.sig) && vrt.And(vrt.EqBytes(r.pub, priv[32:]), vrt.EqBytes(r.msg, msg)) {
				s := RealEdSign(priv, msg)
				vrt.Assume(vrt.EqBytes(r.sig, s))
				return s
			}
		}
		s := RealEdSign(priv, msg)
		for i := range sigs {
			if !vrt.IsConcrete(sigs[i].sig) {
				vrt.Assume(vrt.Not(vrt.EqBytes(sigs[i].sig, s)))
			}
		}
		sigs = append(sigs, srec{clone(priv[32:]), clone(msg), s, good})
		return clone(s)
	}
	good := vrt.EqBytes(pubOf(priv[:32]), priv[32:])
	if good {
		for i := range sigs { // deterministic
			if sigs[i].good && vrt.And(vrt.EqBytes(sigs[i].pub, priv[32:]), vrt.EqBytes(sigs[i].msg, msg)) {
				return clone(sigs[i].sig)
			}
		}
	}
	s := vrt.Fresh("edsig", 64)
	for i := range sigs {
		vrt.Assume(vrt.Not(vrt.EqBytes(sigs[i].sig, s)))
	}
	sigs = append(sigs, srec{clone(priv[32:]), clone(msg), s, good})
	return clone(s)
}

func EdVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 {
		panic("ed25519: bad public key length")
	}
	if len(sig) != 64 {
		return false
	}
	if vrt.IsConcrete(pub) && vrt.IsConcrete(msg) && vrt.IsConcrete(sig) {
		for i := range sigs {
			r := &sigs[i]
			if r.good && !vrt.IsConcrete(r.sig) && vrt.And(vrt.EqBytes(r.pub, pub), vrt.EqBytes(r.msg, msg)) {
				ok := RealEdVerify(pub, msg, sig)
				vrt.Assume(vrt.EqBytes(r.sig, sig) == ok)
				return ok
			}
		}
		return RealEdVerify(pub, msg, sig)
	}
	for i := range sigs {
		r := &sigs[i]
		if r.good && vrt.And(vrt.EqBytes(r.pub, pub), vrt.And(vrt.EqBytes(r.sig, sig), vrt.EqBytes(r.msg, msg))) {
			return true
		}
	}
	return false
}

func EdPrivSign(priv []byte, rand io.Reader, message []byte, opts interface{}) ([]byte, error) {
	return EdSign(priv, message), nil
}

// ---- bcrypt_pbkdf ----

type brec struct {
	pw, salt []byte
	rounds   int
	out      []byte
}

var derived []brec

type strErr struct{ s string }

func (e *strErr) Error() string { return e.s }

func BcryptKey(password, salt []byte, rounds, keyLen int) ([]byte, error) {
	if rounds < 1 {
		return nil, &strErr{"bcrypt_pbkdf: number of rounds is too small"}
	}
	if len(password) == 0 {
		return nil, &strErr{"bcrypt_pbkdf: empty password"}
	}
	if len(salt) == 0 || len(salt) > 1<<20 {
		return nil, &strErr{"bcrypt_pbkdf: bad salt length"}
	}
	if keyLen > 1024 {
		return nil, &strErr{"bcrypt_pbkdf: keyLen is too large"}
	}
	for i := range derived {
		r := &derived[i]
		if len(r.out) == keyLen && vrt.And(r.rounds == rounds, vrt.And(vrt.EqBytes(r.pw, password), vrt.EqBytes(r.salt, salt))) {
			return clone(r.out), nil
		}
	}
	var out []byte
	if vrt.IsConcrete(password) && vrt.IsConcrete(salt) && vrt.IsConcreteInt(rounds) && rounds <= 128 {
		out = RealBcrypt(password, salt, rounds, keyLen)
	} else {
		out = vrt.Fresh("bcrypt", keyLen)
		if keyLen >= 16 {
			vrt.Assume(vrt.Not(vrt.EqBytes(out, make([]byte, keyLen))))
		}
	}
	for i := range derived {
		if len(derived[i].out) == keyLen {
			vrt.Assume(vrt.Not(vrt.EqBytes(derived[i].out, out)))
		}
	}
	derived = append(derived, brec{clone(password), clone(salt), rounds, out})
	return clone(out), nil
}

// ---- Curve25519 ----

type prec struct{ scalar, pub []byte }
type drec struct{ p, q, out []byte }

var points []prec
var shared []drec

func clamp(s []byte) []byte {
	b := clone(s)
	b[0] &= 248
	b[31] &= 127
	b[31] |= 64
	return b
}

func basePoint(scalar []byte) []byte {
	k := clamp(scalar)
	if vrt.IsConcrete(scalar) {
		for i := range points {
			if vrt.EqBytes(points[i].scalar, k) {
				pub := RealX25519Base(scalar)
				vrt.Assume(vrt.EqBytes(points[i].pub, pub))
				return pub
			}
		}
		pub := RealX25519Base(scalar)
		for i := range points {
			vrt.Assume(vrt.Not(vrt.EqBytes(points[i].pub, pub)))
		}
		return pub
	}
	for i := range points {
		if vrt.EqBytes(points[i].scalar, k) {
			return points[i].pub
		}
	}
	pub := vrt.Fresh("x25519pub", 32)
	vrt.Assume(pub[31] < 128)
	for i := range points {
		vrt.Assume(vrt.Not(vrt.EqBytes(points[i].pub, pub)))
	}
	points = append(points, prec{k, pub})
	return pub
}

func ScalarBaseMult(dst, in *[32]byte) { copy(dst[:], basePoint(in[:])) }

func ScalarMult(dst, in, base *[32]byte) {
	q := clone(base[:])
	q[31] &= 127 // the top bit is not used
	if vrt.IsConcrete(in[:]) && vrt.IsConcrete(q) {
		p := basePoint(in[:])
		for i := range shared {
			r := &shared[i]
			if !vrt.IsConcrete(r.out) && vrt.Or(vrt.And(vrt.EqBytes(r.p, p), vrt.EqBytes(r.q, q)), vrt.And(vrt.EqBytes(r.q, p), vrt.EqBytes(r.p, q))) {
				out := RealX25519(in[:], q)
				vrt.Assume(vrt.EqBytes(r.out, out))
				copy(dst[:], out)
				return
			}
		}
		out := RealX25519(in[:], q)
		shared = append(shared, drec{p, q, out})
		copy(dst[:], out)
		return
	}
	p := basePoint(in[:])
	for i := range shared {
		r := &shared[i]
		if vrt.Or(vrt.And(vrt.EqBytes(r.p, p), vrt.EqBytes(r.q, q)), vrt.And(vrt.EqBytes(r.q, p), vrt.EqBytes(r.p, q))) {
			copy(dst[:], r.out)
			return
		}
	}
	out := vrt.Fresh("x25519", 32)
	for i := range shared {
		vrt.Assume(vrt.Not(vrt.EqBytes(shared[i].out, out)))
	}
	shared = append(shared, drec{clone(p), q, out})
	copy(dst[:], out)
}

// ---- HSalsa20 ----

var hsalsa []hrec

func HSalsa20(out *[32]byte, in *[16]byte, k *[32]byte, c *[16]byte) {
	all := append(append(clone(in[:]), k[:]...), c[:]...)
	for i := range hsalsa {
		if vrt.EqBytes(hsalsa[i].in, all) {
			copy(out[:], hsalsa[i].out)
			return
		}
	}
	var o []byte
	if vrt.IsConcrete(all) && string(c[:]) == "expand 32-byte k" {
		o = RealHSalsa20(in[:], k[:])
	} else {
		o = vrt.Fresh("hsalsa", 32)
	}
	for i := range hsalsa {
		vrt.Assume(vrt.Not(vrt.EqBytes(hsalsa[i].out, o)))
	}
	hsalsa = append(hsalsa, hrec{all, o, false})
	copy(out[:], o)
}

// ---- secretbox: ideal authenticated encryption ----

type crec struct {
	key, nonce, msg, ct []byte
}

var boxes []crec

// opaque are the indices of the boxes of unknown content.
var opaque []int

// maxBoxes bounds the boxes of known content that are remembered.
const maxBoxes = 5000

func SecretSeal(out, message []byte, nonce *[24]byte, key *[32]byte) []byte {
	if vrt.IsConcrete(message) && vrt.IsConcrete(nonce[:]) && vrt.IsConcrete(key[:]) {
		for _, i := range opaque {
			r := &boxes[i]
			if len(r.msg) == len(message) && vrt.And(vrt.EqBytes(r.key, key[:]), vrt.And(vrt.EqBytes(r.nonce, nonce[:]), vrt.EqBytes(r.msg, message))) {
				ct := RealSecretSeal(message, nonce[:], key[:])
				vrt.Assume(vrt.EqBytes(r.ct, ct))
				return append(out, ct...)
			}
		}
		ct := RealSecretSeal(message, nonce[:], key[:])
		for _, i := range opaque {
			vrt.Assume(vrt.Not(vrt.EqBytes(boxes[i].ct[:16], ct[:16])))
		}
		if len(boxes) < maxBoxes {
			boxes = append(boxes, crec{clone(key[:]), clone(nonce[:]), clone(message), ct})
		}
		return append(out, ct...)
	}
	for i := range boxes {
		r := &boxes[i]
		if vrt.And(vrt.EqBytes(r.key, key[:]), vrt.EqBytes(r.nonce, nonce[:])) {
			if len(r.msg) == len(message) && vrt.EqBytes(r.msg, message) {
				return append(out, r.ct...)
			}
		}
	}
	ct := vrt.Fresh("box", len(message)+16)
	for i := range boxes {
		// authenticators are distinct
		vrt.Assume(vrt.Not(vrt.EqBytes(boxes[i].ct[:16], ct[:16])))
	}
	opaque = append(opaque, len(boxes))
	boxes = append(boxes, crec{clone(key[:]), clone(nonce[:]), clone(message), ct})
	return append(out, ct...)
}

func SecretOpen(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	if len(box) < 16 {
		return nil, false
	}
	if vrt.IsConcrete(box) && vrt.IsConcrete(nonce[:]) && vrt.IsConcrete(key[:]) {
		for _, i := range opaque {
			r := &boxes[i]
			if len(r.ct) == len(box) && vrt.And(vrt.EqBytes(r.key, key[:]), vrt.And(vrt.EqBytes(r.nonce, nonce[:]), vrt.EqBytes(r.ct, box))) {
				vrt.Assume(RealSecretOpenOK(box, nonce[:], key[:]))
				msg := RealSecretOpen(box, nonce[:], key[:])
				vrt.Assume(vrt.EqBytes(r.msg, msg))
				return append(out, msg...), true
			}
		}
		if !RealSecretOpenOK(box, nonce[:], key[:]) {
			return nil, false
		}
		return append(out, RealSecretOpen(box, nonce[:], key[:])...), true
	}
	for i := range boxes {
		r := &boxes[i]
		if len(r.ct) != len(box) {
			continue
		}
		if vrt.And(vrt.EqBytes(r.key, key[:]), vrt.And(vrt.EqBytes(r.nonce, nonce[:]), vrt.EqBytes(r.ct, box))) {
			return append(out, r.msg...), true
		}
	}
	return nil, false
}

// ---- nacl/auth: unforgeable MAC ----

type arec struct{ key, msg, tag []byte }

var macs []arec

func AuthSum(m []byte, key *[32]byte) *[32]byte {
	r := new([32]byte)
	if vrt.IsConcrete(m) && vrt.IsConcrete(key[:]) {
		for i := range macs {
			x := &macs[i]
			if len(x.msg) == len(m) && !vrt.IsConcrete(x.tag) && vrt.And(vrt.EqBytes(x.key, key[:]), vrt.EqBytes(x.msg, m)) {
				t := RealAuthSum(m, key[:])
				vrt.Assume(vrt.EqBytes(x.tag, t))
				copy(r[:], t)
				return r
			}
		}
		t := RealAuthSum(m, key[:])
		for i := range macs {
			if !vrt.IsConcrete(macs[i].tag) {
				vrt.Assume(vrt.Not(vrt.EqBytes(macs[i].tag, t)))
			}
		}
		macs = append(macs, arec{clone(key[:]), clone(m), t})
		copy(r[:], t)
		return r
	}
	for i := range macs {
		x := &macs[i]
		if len(x.msg) == len(m) && vrt.And(vrt.EqBytes(x.key, key[:]), vrt.EqBytes(x.msg, m)) {
			copy(r[:], x.tag)
			return r
		}
	}
	t := vrt.Fresh("auth", 32)
	for i := range macs {
		vrt.Assume(vrt.Not(vrt.EqBytes(macs[i].tag, t)))
	}
	macs = append(macs, arec{clone(key[:]), clone(m), t})
	copy(r[:], t)
	return r
}

func AuthVerify(digest []byte, m []byte, key *[32]byte) bool {
	if len(digest) != 32 {
		return false
	}
	if vrt.IsConcrete(m) && vrt.IsConcrete(key[:]) {
		for i := range macs {
			x := &macs[i]
			if len(x.msg) == len(m) && !vrt.IsConcrete(x.tag) && vrt.And(vrt.EqBytes(x.key, key[:]), vrt.EqBytes(x.msg, m)) {
				t := RealAuthSum(m, key[:])
				vrt.Assume(vrt.EqBytes(x.tag, t))
				return vrt.EqBytes(t, digest)
			}
		}
		return vrt.EqBytes(RealAuthSum(m, key[:]), digest)
	}
	for i := range macs {
		x := &macs[i]
		if len(x.msg) != len(m) {
			continue
		}
		if vrt.And(vrt.EqBytes(x.key, key[:]), vrt.And(vrt.EqBytes(x.msg, m), vrt.EqBytes(x.tag, digest))) {
			return true
		}
	}
	return false
}

// ---- misc ----

// XORBytes is subtle.XORBytes.
func XORBytes(dst, x, y []byte) int {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	if n == 0 {
		return 0
	}
	if n > len(dst) {
		panic("subtle.XORBytes: dst too short")
	}
	for i := 0; i < n; i++ {
		dst[i] = x[i] ^ y[i]
	}
	return n
}

func asTarget(err error, target interface{}) bool { panic("engine") }

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// RuntimeError is the value of a run-time panic.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

var _ error = RuntimeError("")

// ---- encoding/binary: its reflective half, on the parts of a value ----

// leaves points at the fixed-size parts of a value (of what a pointer points
// to, of the elements of a slice).
func leaves(data interface{}) ([]interface{}, bool) { panic("engine") }

func binSize(ls []interface{}) (n int) {
	for _, l := range ls {
		switch l.(type) {
		case *bool, *uint8:
			n++
		case *uint16:
			n += 2
		case *uint32:
			n += 4
		case *uint64:
			n += 8
		}
	}
	return
}

func BinSize(data interface{}) int {
	if b, ok := data.([]byte); ok {
		return len(b)
	}
	ls, ok := leaves(data)
	if !ok {
		return -1
	}
	return binSize(ls)
}

func BinWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	if b, ok := data.([]byte); ok {
		_, err := w.Write(b)
		return err
	}
	ls, ok := leaves(data)
	if !ok {
		return errors.New("binary.Write: some values are not fixed-sized")
	}
	buf := make([]byte, binSize(ls))
	i := 0
	for _, l := range ls {
		switch p := l.(type) {
		case *bool:
			if *p {
				buf[i] = 1
			}
			i++
		case *uint8:
			buf[i] = *p
			i++
		case *uint16:
			order.PutUint16(buf[i:], *p)
			i += 2
		case *uint32:
			order.PutUint32(buf[i:], *p)
			i += 4
		case *uint64:
			order.PutUint64(buf[i:], *p)
			i += 8
		}
	}
	_, err := w.Write(buf)
	return err
}

func BinRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	if b, ok := data.([]byte); ok {
		buf := make([]byte, len(b))
		_, err := io.ReadFull(r, buf)
		if err == nil {
			copy(b, buf)
		}
		return err
	}
	ls, ok := leaves(data)
	if !ok {
		return errors.New("binary.Read: invalid type")
	}
	buf := make([]byte, binSize(ls))
	if _, err := io.ReadFull(r, buf); err != nil {
		return err
	}
	i := 0
	for _, l := range ls {
		switch p := l.(type) {
		case *bool:
			*p = buf[i] != 0
			i++
		case *uint8:
			*p = buf[i]
			i++
		case *uint16:
			*p = order.Uint16(buf[i:])
			i += 2
		case *uint32:
			*p = order.Uint32(buf[i:])
			i += 4
		case *uint64:
			*p = order.Uint64(buf[i:])
			i += 8
		}
	}
	return nil
}
