package vcmd

import (
	stdb64 "encoding/base64"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/internal/vterm"
	"github.com/kisom/psignify/signify"
)

// said is what one run of the program shows.
type said struct {
	code, prompts int
	out, err      []byte
}

func runSaid(args ...string) said {
	code := run(args...)
	return said{code, vterm.Prompts, clone(vos.OutText), clone(vos.ErrText)}
}

// alike: two runs that differ in secrets only and end alike show the same.
func alike(a, b said) {
	if a.code != b.code || a.prompts != b.prompts {
		return
	}
	vrt.Assert(vrt.EqBytes(a.out, b.out), "standard output does not depend on secrets")
	vrt.Assert(vrt.EqBytes(a.err, b.err), "standard error does not depend on secrets")
	if a.code == 0 {
		vrt.Reach("both work")
	} else {
		vrt.Reach("both fail")
	}
}

// typedPass is a passphrase typed in one of the two runs, short or long.
func typedPass(name string, run int) []byte {
	if run == 1 {
		if n := []int{0, 9, 12, 40, 73, 129}[vrt.Choose("long", 6)]; n > 0 {
			return vrt.Bytes(name, n, n)
		}
		return vrt.Bytes(name, 3, 4)
	}
	return vrt.Bytes(name, 1, 4)
}

// VH_M03_generate: key generation shows neither passphrase nor key.
func VH_M03_generate() {
	var r [2]said
	n := vrt.Choose("pass", 2)
	for i := range r {
		e := vrt.Bytes("entropy", 56, 56)
		vrand.Calls = 0
		off := 0
		vrand.Next = func(call int, p []byte) {
			for j := range p {
				p[j] = e[off%len(e)]
				off++
			}
		}
		if n == 1 {
			a := typedPass("typed", i)
			b := typedPass("again", i)
			answers(a, b)
			r[i] = runSaid("-G", "-p", "/w/k")
		} else {
			answers()
			r[i] = runSaid("-G", "-n", "-p", "/w/k")
		}
		vos.Del("/w/k.sec")
		vos.Del("/w/k.pub")
	}
	alike(r[0], r[1])
}

// VH_M03_use: signing and opening show nothing of passphrase, key or message.
func VH_M03_use() {
	op := vrt.Choose("op", 2)
	how := vrt.Choose("how", 4)
	var r [2]said
	for i := range r {
		pass := []byte(nil)
		msg := []byte("attack at dawn")
		if how < 2 {
			pass = []byte("pw")
		}
		if how == 3 {
			msg = vrt.Bytes("msg", 14, 14)
		}
		keypair("/w/k", pass)
		vos.Put("/w/msg", msg, 0644)
		if op == 1 {
			vrt.Assert(crypto.Seal("/w/k.pub", "/w/msg", "/w/c") == nil, "sealing works")
		}
		answers([]byte("pw"))
		switch how {
		case 0: // the passphrase typed
			answers(typedPass("typed", i))
		case 1: // the encrypted key, damaged in secret places
			dirt(vrt.Bytes("delta", 64, 64))
		case 2:
			dirt(vrt.Bytes("delta", 64, 64))
		}
		if op == 0 {
			r[i] = runSaid("-S", "-s", "/w/k.sec", "-m", "/w/msg", "-x", "/w/out")
		} else {
			r[i] = runSaid("-D", "-s", "/w/k.sec", "-c", "/w/c", "-m", "/w/out")
		}
		for _, f := range vos.Files() {
			vos.Del(f)
		}
	}
	alike(r[0], r[1])
}

// dirt changes the key bytes of the secret key file.
func dirt(d []byte) {
	vrt.Assume(vrt.Not(vrt.EqBytes(d, make([]byte, len(d)))))
	h, p := payload("/w/k.sec")
	for i := range d {
		p[40+i] ^= d[i]
	}
	vos.Put("/w/k.sec", append(clone(h), append([]byte(stdb64.StdEncoding.EncodeToString(p)), '\n')...), 0600)
}

// VH_M03_seal: sealing shows nothing of the message or the ephemeral key.
func VH_M03_seal() {
	keypair("/w/k", nil)
	var r [2]said
	for i := range r {
		vos.Put("/w/msg", vrt.Bytes("msg", 20, 20), 0644)
		e := vrt.Bytes("entropy", 32, 32)
		vrand.Calls = 0
		vrand.Next = func(call int, p []byte) { copy(p, e) }
		r[i] = runSaid("-E", "-p", "/w/k.pub", "-m", "/w/msg", "-c", "/w/c")
	}
	alike(r[0], r[1])
}

// VH_M03_malformed: a secret key file that is refused as malformed is not
// shown either, nor is an encrypted message.
func VH_M03_malformed() {
	op := vrt.Choose("op", 3)
	how := vrt.Choose("how", 6)
	pass := []byte(nil)
	if vrt.Choose("pass", 2) == 1 {
		pass = []byte("pw")
	}
	var r [2]said
	for i := range r {
		vos.Put("/w/msg", []byte("attack at dawn"), 0644)
		keypair("/w/k", pass)
		vrt.Assert(crypto.Seal("/w/k.pub", "/w/msg", "/w/c") == nil, "sealing works")
		h, p := payload("/w/k.sec")
		copy(p[40:], vrt.Bytes("key", 64, 64))
		if how == 1 {
			p = p[:80]
		}
		if how == 2 {
			p = append(p, p[40:60]...)
		}
		if how == 3 {
			p[1] = 'x'
		}
		if how == 4 {
			p[3] = 'x'
		}
		t := []byte(stdb64.StdEncoding.EncodeToString(p))
		if how == 0 {
			t[len(t)-6] = '*'
		}
		if how == 5 {
			// the payload on the comment line's place, and nothing else
			h = nil
			t = append(append(t, ' '), t...)
		}
		vos.Put("/w/k.sec", append(append(clone(h), t...), '\n'), 0600)
		answers([]byte("pw"))
		switch op {
		case 0:
			r[i] = runSaid("-S", "-s", "/w/k.sec", "-m", "/w/msg", "-x", "/w/out")
		case 1:
			r[i] = runSaid("-D", "-s", "/w/k.sec", "-c", "/w/c", "-m", "/w/out")
		case 2: // the secret key in place of the public one
			r[i] = runSaid("-E", "-p", "/w/k.sec", "-m", "/w/msg", "-c", "/w/out")
		}
		for _, f := range vos.Files() {
			vos.Del(f)
		}
	}
	alike(r[0], r[1])
}

var _ = signify.Sign
