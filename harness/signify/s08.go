package signify

import (
	"bytes"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/internal/vterm"
)

// VH_S08_perm: a freshly written secret key file is at no time readable or
// writable by group or others, whatever the umask.
func VH_S08_perm() {
	vos.Umask = vos.FileMode(vrt.Int("umask", 0, 0777))
	pass := vhPass(vrt.Choose("pass", 2))
	var opts *GenerateOptions
	if vrt.Choose("opts", 2) == 1 {
		opts = &GenerateOptions{Rounds: 1}
	}
	vhSetPrompt(pass)
	err := GenerateKey(vhKey, pass, opts)
	vrt.Assert(err == nil, "key generation works")
	n := vos.Lookup(vhSec)
	vrt.Assert(n != nil, "secret key file exists")
	if n == nil {
		return
	}
	vrt.Assert(n.Mode&077 == 0, "secret key file is private")
	vrt.Assert(n.Wide&077 == 0, "secret key file was private all along")
	for _, f := range vos.Files() {
		if f != vhPub {
			vrt.Assert(vos.Lookup(f).Wide&077 == 0, "nothing else holds the key")
		}
	}
	vrt.Reach("done")
}

// VH_S08_again: generating over existing files: neither the new nor the old
// secret key becomes readable by others.
func VH_S08_again() {
	vhMake(vhPass(vrt.Choose("oldpass", 2)))
	if vrt.Choose("pubgone", 2) == 1 {
		vos.Del(vhPub)
	}
	vos.Umask = vos.FileMode(vrt.Int("umask", 0, 0777))
	pass := vhPass(vrt.Choose("pass", 2))
	vhSetPrompt(pass)
	err := GenerateKey(vhKey, pass, nil)
	if err == nil {
		vrt.Reach("replaced")
	} else {
		vrt.Reach("refused")
	}
	for _, f := range vos.Files() {
		if f != vhPub {
			vrt.Assert(vos.Lookup(f).Wide&077 == 0, "only the owner can read "+f)
		}
	}
	vrt.Reach("done")
}

// VH_S08_fail: the same when an operation fails.
func VH_S08_fail() {
	if vrt.Choose("old", 2) == 1 {
		vhMake(nil)
	}
	vos.Umask = vos.FileMode(vrt.Int("umask", 0, 0777))
	vos.Ops = 0
	vos.FailErrs = true
	vos.FailOp = vrt.Int("fail", 0, 20)
	vos.FailPartial = vrt.Choose("partial", 2) == 1
	vhSetPrompt(nil)
	GenerateKey(vhKey, nil, nil)
	for _, f := range vos.Files() {
		if f != vhPub {
			vrt.Assert(vos.Lookup(f).Wide&077 == 0, "only the owner can read "+f)
		}
	}
	vrt.Reach("done")
}

// vhSnap records the whole file system.
func vhSnap() (names []string, data [][]byte) {
	for _, f := range vos.Files() {
		d, _ := vos.Get(f)
		names = append(names, f)
		data = append(data, vhClone(d))
	}
	return
}

// vhSame checks that the file system is as recorded, apart from `except`.
func vhSame(names []string, data [][]byte, except, what string) {
	for i, f := range names {
		if f == except {
			continue
		}
		d, ok := vos.Get(f)
		vrt.Assert(ok && vrt.EqBytes(d, data[i]), what+": "+f+" untouched")
	}
	for _, f := range vos.Files() {
		known := f == except
		for _, n := range names {
			if n == f {
				known = true
			}
		}
		vrt.Assert(known, what+": no stray file "+f)
	}
}

// VH_S09_sign: signing writes the signature file and nothing else; when it
// is refused it writes nothing at all.
func VH_S09_sign() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhMake(pass)
	old := vrt.Choose("old", 2) == 1
	if old {
		vos.Put(vhSig, []byte("previous signature"), 0644)
	}
	m := vrt.Bytes("msg", 0, 30)
	vos.Put(vhMsg, m, 0644)
	bad := vrt.Choose("how", 6)
	switch bad {
	case 1:
		vos.Del(vhSec)
	case 2:
		vos.Del(vhMsg)
	case 3:
		p := vhPayload(vhSec)
		p[50] ^= 1
		vhPut(vhSec, p)
	case 4:
		vhSetPrompt([]byte("wrong"))
	case 5:
		vhPut(vhSec, vhPayload(vhSec)[:80])
	}
	names, data := vhSnap()
	err := Sign(vhSec, vhMsg, []string{"", vhSig}[vrt.Choose("out", 2)])
	if bad == 0 || bad == 4 && len(pass) == 0 {
		vrt.Assert(err == nil, "signing works")
		vhSame(names, data, vhSig, "signing")
		vrt.Assert(len(vhPayload(vhSig)) == 74, "signature written")
		vrt.Assert(vrt.Not(vrt.EqBytes(vhFile(vhSig), []byte("previous signature"))), "old signature replaced")
		vrt.Reach("signed")
	} else {
		vrt.Assert(err != nil, "refusal reported")
		vhSame(names, data, "", "refused signing")
		vrt.Reach("refused")
	}
	vrt.Assert(vos.OpenHandles == 0, "no file left open for writing")
}

// VH_S09_long: an old, longer signature file is replaced entirely.
func VH_S09_long() {
	vhMake(nil)
	vos.Put(vhMsg, []byte("m"), 0644)
	vos.Put(vhSig, vrt.Bytes("old", 0, 300), 0644)
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert(err == nil, "signing works")
	vhCheckFile(vhSig, "untrusted comment: verify with u.pub", 74)
	vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "verifies")
	vrt.Reach("done")
}

// VH_S09_verify: verification writes nothing, whatever the outcome.
func VH_S09_verify() {
	vhSigned(nil, []byte("attack at dawn"))
	switch vrt.Choose("how", 9) {
	case 5:
		vos.Put(vhSig, append(vrt.Bytes("front", 1, 3), vhFile(vhSig)...), 0644)
	case 6:
		vos.Put(vhPub, append(vrt.Bytes("front", 1, 3), vhFile(vhPub)...), 0644)
	case 7:
		vos.Put(vhSig, append(vhFile(vhSig), vrt.Bytes("more", 1, 3)...), 0644)
	case 8:
		for _, f := range []string{vhSig, vhPub} {
			vos.Put(f, bytes.Replace(vhFile(f), []byte("\n"), []byte("\r\n"), -1), 0644)
		}
	case 1:
		vos.Put(vhMsg, vrt.Bytes("msg", 0, 20), 0644)
	case 2:
		vos.Del(vhMsg)
	case 3:
		vos.Del(vhSig)
	case 4:
		vos.Del(vhPub)
	}
	names, data := vhSnap()
	vos.Touched = nil
	err := Verify(vhPub, vhMsg, "")
	vrt.ObserveBool("ok", err == nil)
	vhSame(names, data, "", "verifying")
	vrt.Assert(len(vos.Touched) == 0, "nothing written")
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_S10_fresh: two key pairs generated one after the other share neither
// key, key number nor salt, if the entropy source does not repeat itself.
func VH_S10_fresh() {
	pass := vhPass(vrt.Choose("pass", 2))
	if vrt.Choose("rand", 2) == 1 {
		vrand.Next = func(call int, p []byte) { copy(p, vrt.Bytes("entropy", len(p), len(p))) }
	}
	vhSetPrompt(pass)
	opts := &GenerateOptions{Rounds: 1}
	err1 := GenerateKey("/w/a", pass, opts)
	n := len(vrand.Given)
	err2 := GenerateKey("/w/b", pass, opts)
	vrt.Assert(err1 == nil && err2 == nil, "key generation works")
	// the source never repeats an 8-byte block at the same place
	for i, g := range vrand.Given[:n] {
		if n+i < len(vrand.Given) {
			h := vrand.Given[n+i]
			if len(h) == len(g) {
				vrt.Assume(vrt.Not(vrt.EqBytes(g, h)))
			}
		}
	}
	total := 0
	for _, g := range vrand.Given[:n] {
		total += len(g)
	}
	vrt.Assert(total >= 32+16+8, "at least 56 bytes of entropy per key pair")
	a, b := vhPayload("/w/a.sec"), vhPayload("/w/b.sec")
	vrt.Assert(len(a) == 104 && len(b) == 104, "layout")
	vrt.Assert(vrt.Not(vrt.EqBytes(a[8:24], b[8:24])), "fresh salt")
	vrt.Assert(vrt.Not(vrt.EqBytes(a[32:40], b[32:40])), "fresh key number")
	pa, pb := vhPayload("/w/a.pub"), vhPayload("/w/b.pub")
	vrt.Assert(vrt.Not(vrt.EqBytes(pa[10:], pb[10:])), "fresh key")
	vrt.Reach("done")
}

// VH_S10_material: seed, salt and key number are entropy as delivered, taken
// from disjoint places.
func VH_S10_material() {
	vhSetPrompt(nil)
	vrand.Next = func(call int, p []byte) {
		for i := range p {
			p[i] = byte(len(vrand.Given)*67 + i*3 + 1)
		}
	}
	priv, pub, err := GenerateKeypair(nil, nil)
	vrt.Assert(err == nil && priv != nil && pub != nil, "key generation works")
	vrand.Calls = 0
	vrand.Given = nil
	vrt.Assert(GenerateKey(vhKey, nil, nil) == nil, "key generation works")
	s := vhPayload(vhSec)
	vrt.Assert(vhGiven(s[40:72]), "the seed is entropy")
	vrt.Assert(vhGiven(s[8:24]), "the salt is entropy")
	vrt.Assert(vhGiven(s[32:40]), "the key number is entropy")
	vrt.Assert(!vrt.EqBytes(s[8:16], s[32:40]) && !vrt.EqBytes(s[40:48], s[32:40]) && !vrt.EqBytes(s[40:56], s[8:24]), "taken from different places")
	vrt.Reach("done")
}

// VH_S10_fail: when the entropy source fails no key is produced.
func VH_S10_fail() {
	pass := vhPass(vrt.Choose("pass", 2))
	vrand.FailCall = vrt.Int("fail", 0, 6)
	vhSetPrompt(pass)
	err := GenerateKey(vhKey, pass, &GenerateOptions{Rounds: 1})
	if vrand.FailCall < vrand.Calls {
		vrt.Assert(err != nil, "entropy failure reported")
		vrt.Assert(len(vos.Files()) == 0, "no key file on entropy failure")
		vrt.Reach("failed")
	} else {
		vrt.Assert(err == nil, "key generation works")
		vrt.Reach("worked")
	}
	vrand.Calls = 0
	priv, pub, err := GenerateKeypair(pass, &GenerateOptions{Rounds: 1})
	if vrand.FailCall < vrand.Calls {
		vrt.Assert(err != nil && priv == nil && pub == nil, "entropy failure reported, no key returned")
	} else {
		vrt.Assert(err == nil && priv != nil && pub != nil, "key generation works")
	}
}

// VH_S11_prompt: the built-in prompt asks once, or twice for a new
// passphrase, and accepts only two equal answers.
func VH_S11_prompt() {
	max := 4
	if vrt.Thorough() {
		max = 12
	}
	a := vrt.Bytes("first", 0, max)
	b := vrt.Bytes("second", 0, max)
	confirm := vrt.Choose("confirm", 2) == 1
	vterm.Answers = [][]byte{a, b, a, b}
	vterm.FailPrompt = vrt.Int("fail", -1, 2)
	got, err := PassphrasePrompt(confirm)
	asked := 1
	if confirm {
		asked = 2
	}
	if vterm.FailPrompt >= 0 && vterm.FailPrompt < asked {
		vrt.Assert(err != nil, "terminal failure reported")
		vrt.Assert(len(got) == 0, "no passphrase on failure")
		vrt.Reach("failed")
		return
	}
	vrt.Assert(vterm.Prompts == asked, "number of prompts")
	if !confirm {
		vrt.Assert(err == nil && vrt.EqBytes(got, a), "the answer is returned")
		vrt.Reach("once")
		return
	}
	same := vrt.EqBytes(a, b)
	vrt.Assert((err == nil) == same, "accepted exactly when both answers agree")
	if err == nil {
		vrt.Assert(vrt.EqBytes(got, a), "the answer is returned")
		vrt.Reach("agree")
	} else {
		vrt.Assert(len(got) == 0, "no passphrase on failure")
		vrt.Reach("differ")
	}
}

// VH_S11_use: Sign and ToBox ask once, without confirmation, and use the
// answer.
func VH_S11_use() {
	p := vrt.Bytes("pass", 1, 5)
	err := GenerateKey(vhKey, p, &GenerateOptions{Rounds: 1})
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, []byte("m"), 0644)
	q := vrt.Bytes("tried", 0, 5)
	vterm.Answers = [][]byte{q, p}
	err = Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == vrt.EqBytes(p, q), "signs exactly with the right answer")
	vrt.Assert(vterm.Prompts == 1, "asked once")
	vterm.Prompts = 0
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	_, err = priv.ToBox()
	vrt.Assert((err == nil) == vrt.EqBytes(p, q), "decrypts exactly with the right answer")
	vrt.Assert(vterm.Prompts == 1, "asked once")
	vrt.Reach("done")
}

// VH_S12_sign: an I/O failure anywhere in Sign is reported, and no complete
// signature is claimed.
func VH_S12_sign() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhMake(pass)
	vos.Put(vhMsg, vrt.Bytes("msg", 0, 40), 0644)
	vos.Ops = 0
	vos.FailErrs = true
	vos.FailOp = vrt.Int("fail", 0, 20)
	vos.FailPartial = vrt.Choose("partial", 2) == 1
	err := Sign(vhSec, vhMsg, "")
	vos.FailOp = -1
	if vos.Faulted {
		vrt.Assert(err != nil, "failed "+vos.FaultKind+" reported by Sign")
		vrt.Reach("faulted")
	} else {
		vrt.Assert(err == nil, "signing works")
		vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "verifies")
		vrt.Reach("worked")
	}
}

// VH_S12_verify: an I/O failure anywhere in Verify is never an acceptance.
func VH_S12_verify() {
	vhSigned(nil, []byte("attack at dawn"))
	vos.Ops = 0
	vos.FailErrs = true
	vos.FailOp = vrt.Int("fail", 0, 20)
	vos.FailPartial = vrt.Choose("partial", 2) == 1
	err := Verify(vhPub, vhMsg, "")
	if vos.Faulted {
		vrt.Assert(err != nil, "failed "+vos.FaultKind+" reported by Verify")
		vrt.Reach("faulted")
	} else {
		vrt.Assert(err == nil, "verifies")
		vrt.Reach("worked")
	}
}

// VH_S12_generate: an I/O failure anywhere in GenerateKey is reported.
func VH_S12_generate() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhSetPrompt(pass)
	vos.FailErrs = true
	vos.FailOp = vrt.Int("fail", 0, 20)
	vos.FailPartial = vrt.Choose("partial", 2) == 1
	err := GenerateKey(vhKey, pass, &GenerateOptions{Rounds: 1})
	vos.FailOp = -1
	if vos.Faulted {
		vrt.Assert(err != nil, "failed "+vos.FaultKind+" reported by GenerateKey")
		vrt.Reach("faulted")
	} else {
		vrt.Assert(err == nil, "key generation works")
		vos.Put(vhMsg, []byte("m"), 0644)
		vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signs")
		vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "verifies")
		vrt.Reach("worked")
	}
}

// VH_S12_short: short reads from the file system do not matter.
func VH_S12_short() {
	vhMake(nil)
	m := []byte("attack at dawn")
	vos.Put(vhMsg, m, 0644)
	switch vrt.Choose("mode", 3) {
	case 0:
		vos.OneByteReads = true
	case 1:
		vos.MaxRead = 7
	case 2:
		vos.SplitReads = 2
	}
	vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signs")
	vos.OneByteReads = false
	g := vhPayload(vhSig)
	vrt.Assert(len(g) == 74, "layout")
	vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "verifies")
	vos.Put(vhMsg, []byte("attack at dusk"), 0644)
	vrt.Assert(Verify(vhPub, vhMsg, "") != nil, "another message does not verify")
	vrt.Reach("done")
}

// VH_S08_names: the same whatever the key file is called.
func VH_S08_names() {
	n := vrt.Bytes("name", 1, 4)
	ok := true
	for _, c := range n {
		ok = vrt.And(ok, vrt.And(c != 0, c != '/'))
	}
	vrt.Assume(ok)
	at := []string{"/w/", "/w/a.pub", "/tmp/", "/w/my.public/k", "/w/k.sec", "k", "/etc/signify/"}[vrt.Choose("where", 7)]
	base := at + string(n) + []string{"", ".pub", ".sec", ".tmp"}[vrt.Choose("end", 4)]
	vos.Umask = vos.FileMode(vrt.Int("umask", 0, 0777))
	vhSetPrompt(nil)
	err := GenerateKey(base, nil, nil)
	vrt.Assert(err == nil, "key generation works")
	sec := vos.Lookup(base + ".sec")
	vrt.Assert(sec != nil, "secret key file exists")
	for _, f := range vos.Files() {
		if vos.Lookup(f) != vos.Lookup(base+".pub") {
			vrt.Assert(vos.Lookup(f).Wide&077 == 0, "only the owner can read the secret key")
		}
	}
	vrt.Reach("done")
}

// VH_S09_scratch: a file of any name stays as it was when something is
// signed, also one of a name that signing uses for something of its own.
func VH_S09_scratch() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhMake(pass)
	vos.Put(vhMsg, []byte("m"), 0644)
	if vrt.Choose("old", 2) == 1 {
		vos.Put(vhSig, []byte("old"), 0644)
	}
	vos.Touched = nil
	vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signing works")
	precious := []byte("precious")
	for _, n := range append([]string(nil), vos.Touched...) {
		if n == vhSig {
			continue
		}
		vos.Put(n, precious, 0600)
		Sign(vhSec, vhMsg, "")
		vrt.Assert(vrt.EqBytes(vhFile(n), precious), "another file stays as it was")
	}
	vos.Touched = nil
	vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "verifying works")
	vrt.Assert(len(vos.Touched) == 0, "nothing written")
	vrt.Reach("done")
}

// VH_S10_many: none of many key pairs shares anything with another.
func VH_S10_many() {
	n := 150
	if vrt.Thorough() {
		n = 1100
	}
	pos := 0
	vrand.Next = func(call int, p []byte) {
		// no block of eight bytes ever comes again
		for i := range p {
			if i%8 == 0 {
				pos++
			}
			p[i] = byte(pos >> uint(8*(i%3)))
		}
	}
	var all [][]byte
	for i := 0; i < n; i++ {
		priv, _, err := GenerateKeypair(nil, nil)
		vrt.Assert(err == nil, "key generation works")
		s := priv.encode()
		all = append(all, s)
	}
	for i := range all {
		for j := 0; j < i; j++ {
			a, b := all[i], all[j]
			vrt.Assert(!vrt.EqBytes(a[8:24], b[8:24]), "fresh salt")
			vrt.Assert(!vrt.EqBytes(a[32:40], b[32:40]), "fresh key number")
			vrt.Assert(!vrt.EqBytes(a[40:72], b[40:72]), "fresh seed")
		}
	}
	vrt.Reach("done")
}
