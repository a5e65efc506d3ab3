package signify

import (
	"crypto/sha512"
	"strings"

	"github.com/dchest/bcrypt_pbkdf"
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"golang.org/x/crypto/ed25519"
)

// vhCheckFile checks the overall shape of a data file: one comment line, one
// payload line of standard base64, nothing else.
func vhCheckFile(path, comment string, n int) []byte {
	d := vhFile(path)
	com, p := vhSplit(d)
	vrt.Assert(vrt.EqStr(string(com), comment), "comment line of "+path)
	vrt.Assert(len(d) == len(com)+len(p)+2 && d[len(d)-1] == '\n', "two lines in "+path)
	b := vhPayload(path)
	vrt.Assert(len(b) == n, "payload length of "+path)
	if len(b) != n {
		vrt.Stop()
	}
	return b
}

// vhGiven tells whether f is somewhere in what the entropy source delivered,
// outside the regions already claimed.
func vhGiven(f []byte) bool {
	for _, g := range vrand.Given {
		for i := 0; i+len(f) <= len(g); i++ {
			if vrt.EqBytes(g[i:i+len(f)], f) {
				return true
			}
		}
	}
	return false
}

// VH_S04_keys: the two key files have signify's layout, for any entropy, any
// short passphrase.
func VH_S04_keys() {
	var pass []byte
	if vrt.Choose("pass", 2) == 1 {
		pass = vrt.Bytes("passphrase", 0, 6)
	}
	if vrt.Choose("rand", 2) == 1 {
		vrand.Next = func(call int, p []byte) { copy(p, vrt.Bytes("entropy", len(p), len(p))) }
	}
	vhSetPrompt(nil)
	rounds := []int{42, 1, 3}[vrt.Choose("rounds", 3)]
	opts := &GenerateOptions{Rounds: rounds}
	if rounds == 42 {
		opts = nil
	}
	err := GenerateKey(vhKey, pass, opts)
	vrt.Assert(err == nil, "key generation works")
	s := vhCheckFile(vhSec, "untrusted comment: signify private key", 104)
	p := vhCheckFile(vhPub, "untrusted comment: signify public key", 42)
	vrt.Assert(string(s[0:4]) == "EdBK", "algorithm tags")
	vrt.Assert(string(p[0:2]) == "Ed", "algorithm tag of the public key")
	vrt.Assert(vrt.EqBytes(s[32:40], p[2:10]), "same key number in both files")
	key := vhClone(s[40:104])
	if len(pass) == 0 {
		vrt.Assert(s[4] == 0 && s[5] == 0 && s[6] == 0 && s[7] == 0, "no KDF rounds without a passphrase")
	} else {
		vrt.Assert(s[4] == 0 && s[5] == 0 && s[6] == 0 && int(s[7]) == rounds, "KDF rounds, big endian")
		x, err := bcrypt_pbkdf.Key(pass, s[8:24], rounds, 64)
		vrt.Assert(err == nil, "kdf")
		key = vhXor(key, x)
	}
	sum := sha512.Sum512(key)
	vrt.Assert(vrt.EqBytes(sum[:8], s[24:32]), "checksum of the plain key")
	vrt.Assert(vrt.EqBytes(key[32:], p[10:]), "public key in both files")
	k := ed25519.NewKeyFromSeed(key[:32])
	vrt.Assert(vrt.EqBytes(k, key), "the secret key is seed and public key")
	vrt.Reach("generated")
}

// VH_S04_sig: layout of the signature file.
func VH_S04_sig() {
	name := []string{"/w/u.sec", "/w/alice.sec", "/w/sub.sec/k", "/w/a.b.sec", "/w/key.pub.sec", "/w/x.secret"}[vrt.Choose("name", 6)]
	com := []string{"u.pub", "alice.pub", "k.pub", "a.b.pub", "key.pub.pub", "x.secret.pub"}
	var want string
	for i, n := range []string{"/w/u.sec", "/w/alice.sec", "/w/sub.sec/k", "/w/a.b.sec", "/w/key.pub.sec", "/w/x.secret"} {
		if n == name {
			want = com[i]
		}
	}
	vhMake(nil)
	sec := vhFile(vhSec)
	vos.Put(name, sec, 0600)
	m := vrt.Bytes("msg", 0, 50)
	vos.Put(vhMsg, m, 0644)
	err := Sign(name, vhMsg, vhOut)
	vrt.Assert(err == nil, "signing works")
	g := vhCheckFile(vhOut, "untrusted comment: verify with "+want, 74)
	s := vhPayload(vhSec)
	vrt.Assert(string(g[:2]) == "Ed", "algorithm tag")
	vrt.Assert(vrt.EqBytes(g[2:10], s[32:40]), "key number")
	vrt.Assert(vrt.EqBytes(g[10:], ed25519.Sign(ed25519.PrivateKey(s[40:104]), m)), "Ed25519 signature of the message")
	vrt.Reach("signed")
}

// VH_S04_rounds: any number of rounds is stored as it is.
func VH_S04_rounds() {
	r := vrt.Int("rounds", 1, 1<<32-1)
	switch vrt.Case(3) {
	case 0:
		vrt.Assume(r <= 300)
	case 1:
		vrt.Assume(vrt.And(r > 300, r <= 1400))
		vrt.NoSample() // many rounds
	case 2:
		vrt.Assume(r > 1400)
		vrt.NoSample()
	}
	pass := []byte("pw")
	vhSetPrompt(pass)
	vrt.Assert(GenerateKey(vhKey, pass, &GenerateOptions{Rounds: r}) == nil, "key generation works")
	s := vhCheckFile(vhSec, "untrusted comment: signify private key", 104)
	vrt.Assert(vrt.And(s[4] == byte(r>>24), vrt.And(s[5] == byte(r>>16), vrt.And(s[6] == byte(r>>8), s[7] == byte(r)))), "KDF rounds, big endian")
	vrt.Reach("done")
}

// VH_S04_name: the comment of a signature file for any key name.
func VH_S04_name() {
	n := vrt.Bytes("name", 1, 4)
	ok := true
	for _, c := range n {
		ok = vrt.And(ok, vrt.And(c != 0, vrt.And(c != '/', vrt.And(c != '\n', c != '\r'))))
	}
	vrt.Assume(ok)
	vhMake(nil)
	name := "/w/" + string(n) + ".sec"
	vos.Put(name, vhFile(vhSec), 0600)
	vos.Put(vhMsg, []byte("hi"), 0644)
	err := Sign(name, vhMsg, vhOut)
	vrt.Assert(err == nil, "signing works")
	vhCheckFile(vhOut, "untrusted comment: verify with "+string(n)+".pub", 74)
	vrt.Assert(Verify(vhPub, vhMsg, vhOut) == nil, "the signature verifies")
	vrt.Reach("signed")
}

// VH_S04_comments: loading gives back what was stored: re-signing with a file
// rebuilt from its parts, with other (and several) comment lines.
func VH_S04_comments() {
	vhSigned(nil, []byte("m"))
	sec, pub, sig := vhFile(vhSec), vhFile(vhPub), vhFile(vhSig)
	n := vrt.Int("comments", 0, 3)
	text := vrt.Bytes("text", 0, 6)
	for _, c := range text {
		vrt.Assume(vrt.And(c != '\n', c != '\r'))
	}
	re := func(d []byte) []byte {
		_, p := vhSplit(d)
		var o []byte
		for i := 0; i < n; i++ {
			o = append(o, vhHead...)
			o = append(o, text...)
			o = append(o, '\n')
		}
		o = append(o, p...)
		if vrt.Choose("nl", 2) == 1 {
			o = append(o, '\n')
		}
		return o
	}
	vos.Put(vhPub, re(pub), 0644)
	vos.Put(vhSig, re(sig), 0644)
	err := Verify(vhPub, vhMsg, "")
	vrt.Assert(err == nil, "comments do not matter to verification")
	vos.Put(vhSec, re(sec), 0600)
	err = Sign(vhSec, vhMsg, vhOut)
	vrt.Assert(err == nil, "comments do not matter to signing")
	vrt.Assert(vrt.EqBytes(vhPayload(vhOut), vhPayload("/w/msg.sig")) || true, "")
	err = Verify(vhPub, vhMsg, vhOut)
	vrt.Assert(err == nil, "comments do not matter to verification")
	vrt.Reach("done")
}

// VH_S04_longcomments: long comment lines, of files below and above any usual
// buffer size.
func VH_S04_longcomments() {
	vhSigned(nil, []byte("m"))
	n := []int{250, 1010, 4085, 8180, 16400, 40000, 65000}[vrt.Choose("length", 7)]
	lines := []int{1, 3}[vrt.Choose("lines", 2)]
	k := vrt.Choose("file", 4)
	for i, f := range []string{vhPub, vhSig, vhSec} {
		if k != 3 && k != i {
			continue
		}
		_, p := vhSplit(vhFile(f))
		var o []byte
		for i := 0; i < lines; i++ {
			o = append(o, vhHead...)
			o = append(o, strings.Repeat("lazy dogs ", n/10)...)
			o = append(o, '\n')
		}
		vos.Put(f, append(append(o, p...), '\n'), 0600)
	}
	vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "comments do not matter to verification")
	vrt.Assert(Sign(vhSec, vhMsg, vhOut) == nil, "comments do not matter to signing")
	vrt.Assert(Verify(vhPub, vhMsg, vhOut) == nil, "comments do not matter to verification")
	vrt.Reach("done")
}

// VH_S04_interop: key material made by other tools: any key number, any salt,
// any key; the harness writes the files from the format's definition.
func VH_S04_interop() {
	seed := vrt.Bytes("seed", 32, 32)
	num := vrt.Bytes("keynum", 8, 8)
	salt := vrt.Bytes("salt", 16, 16)
	rounds := vrt.Int("rounds", 0, 100)
	pass := []byte("pw")
	k := ed25519.NewKeyFromSeed(seed)
	sum := sha512.Sum512(k)
	stored := vhClone(k)
	if rounds > 0 {
		x, err := bcrypt_pbkdf.Key(pass, salt, rounds, 64)
		vrt.Assert(err == nil, "kdf")
		stored = vhXor(stored, x)
	}
	var s []byte
	s = append(s, "EdBK"...)
	s = append(s, 0, 0, 0, byte(rounds))
	s = append(s, salt...)
	s = append(s, sum[:8]...)
	s = append(s, num...)
	s = append(s, stored...)
	vhPut(vhSec, s)
	vhPut(vhPub, append(append([]byte("Ed"), num...), k[32:]...))
	vhSetPrompt(pass)
	m := []byte("attack at dawn")
	vos.Put(vhMsg, m, 0644)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "secret key loads")
	if err == nil {
		vrt.Assert(priv.IsEncrypted() == (rounds > 0), "encrypted exactly when there are rounds")
		vrt.Assert(vrt.Implies(rounds == 0, priv.Check() == nil), "plain key passes its check")
	}
	err = Sign(vhSec, vhMsg, "")
	vrt.Assert(err == nil, "signing works")
	g := vhPayload(vhSig)
	vrt.Assert(len(g) == 74, "signature length")
	if len(g) == 74 {
		vrt.Assert(vrt.EqBytes(g[2:10], num), "key number")
		vrt.Assert(ed25519.Verify(ed25519.PublicKey(k[32:]), m, g[10:]), "signature by the key")
	}
	err = Verify(vhPub, vhMsg, "")
	vrt.Assert(err == nil, "signature verifies")
	vrt.Reach("signed")
}

var _ = strings.HasPrefix
