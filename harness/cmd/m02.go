package vcmd

import (
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/internal/vterm"
	"github.com/kisom/psignify/internal/vuser"
	"github.com/kisom/psignify/signify"
)

// VH_M02_sign: -S signs with the key asked for (or the user's own) and
// writes the signature where asked (or next to the message).
func VH_M02_sign() {
	environ()
	keypair("/w/k", nil)
	keypair(home, nil)
	vos.Put("/w/msg", vrt.Bytes("msg", 0, 12), 0644)
	args := []string{"-S", "-m", "/w/msg"}
	pub, other, out := home+".pub", "/w/k.pub", "/w/msg.sig"
	if vrt.Choose("s", 2) == 1 {
		args = append(args, "-s", "/w/k.sec")
		pub, other = other, pub
	}
	if vrt.Choose("x", 2) == 1 {
		args = append(args, "-x", "/w/out")
		out = "/w/out"
	}
	if vrt.Choose("p", 2) == 1 {
		args = append(args, "-p", "/w/nowhere.pub")
	}
	answers()
	names, data := snap()
	vrt.Assert(run(args...) == 0, "signing works")
	same(names, data, "only the signature is written", out)
	vrt.Assert(signify.Verify(pub, "/w/msg", out) == nil, "the key asked for signs")
	vrt.Assert(signify.Verify(other, "/w/msg", out) != nil, "no other key signs")
	vrt.Reach("done")
}

// VH_M02_verify: -V checks against the key and signature asked for.
func VH_M02_verify() {
	environ()
	keypair("/w/k", nil)
	keypair(home, nil)
	vos.Put("/w/msg", vrt.Bytes("msg", 0, 12), 0644)
	// keys of the same names lie in the other directory, each
	for _, e := range []string{".pub", ".sec"} {
		b, _ := vos.Get(home + e)
		vos.Put("/w/u"+e, b, 0600)
		b, _ = vos.Get("/w/k" + e)
		vos.Put(home[:len(home)-1]+"k"+e, b, 0600)
	}
	// msg.sig is by the user's own key, out by the other one
	vrt.Assert(signify.Sign(home+".sec", "/w/msg", "") == nil, "signing works")
	vrt.Assert(signify.Sign("/w/k.sec", "/w/msg", "/w/out") == nil, "signing works")
	args := []string{"-V", "-m", "/w/msg"}
	key, sig := 0, 0
	if vrt.Choose("p", 2) == 1 {
		args = append(args, "-p", "/w/k.pub")
		key = 1
	}
	if vrt.Choose("x", 2) == 1 {
		args = append(args, "-x", "/w/out")
		sig = 1
	}
	if vrt.Choose("s", 2) == 1 {
		args = append(args, "-s", "/w/nowhere.sec")
	}
	names, data := snap()
	code := run(args...)
	vrt.Assert((code == 0) == (key == sig), "the key and signature asked for are used")
	same(names, data, "nothing is written")
	vrt.Reach("done")
}

// VH_M02_generate: -G writes the pair asked for, by default the one the
// other operations use, protected by the passphrase typed twice.
func VH_M02_generate() {
	environ()
	args := []string{"-G"}
	base := home
	if vrt.Choose("p", 2) == 1 {
		base = "/w/k"
		args = append(args, "-p", base)
	}
	pass := vrt.Bytes("pass", 1, 6)
	if vrt.Choose("n", 2) == 1 {
		args = append(args, "-n")
		answers()
		pass = nil
	} else {
		answers(pass, pass)
	}
	names, data := snap()
	vrt.Assert(run(args...) == 0, "generation works")
	same(names, data, "only the pair is written", base+".sec", base+".pub")
	vrt.Assert(exists(base+".sec") && exists(base+".pub"), "the pair is where it belongs")
	if pass == nil {
		vrt.Assert(vterm.Prompts == 0, "-n asks for nothing")
	} else {
		vrt.Assert(vterm.Prompts == 2, "the passphrase is typed twice")
	}
	priv, err := signify.LoadPrivateKey(base + ".sec")
	vrt.Assert(err == nil, "the secret key is readable")
	if err != nil {
		return
	}
	vrt.Assert(priv.IsEncrypted() == (pass != nil), "the key is encrypted unless -n")
	vos.Put("/w/msg", []byte("hi"), 0644)
	use := []string{"-S", "-m", "/w/msg"}
	chk := []string{"-V", "-m", "/w/msg"}
	if base != home {
		use = append(use, "-s", base+".sec")
		chk = append(chk, "-p", base+".pub")
	}
	answers(pass)
	vrt.Assert(run(use...) == 0, "the new key signs")
	vrt.Assert(run(chk...) == 0, "and verifies")
	vrt.Reach("done")
}

// VH_M02_crypt: -E and -D use the keys and files asked for.
func VH_M02_crypt() {
	environ()
	keypair("/w/k", nil)
	keypair(home, nil)
	msg := vrt.Bytes("msg", 0, 12)
	vos.Put("/w/msg", msg, 0644)
	enc := []string{"-E", "-m", "/w/msg"}
	c := "/w/msg.enc"
	if vrt.Choose("c", 2) == 1 {
		c = "/w/c"
		enc = append(enc, "-c", c)
	}
	dec := []string{"-D", "-m", "/w/out", "-c", c}
	sec, other := home+".sec", "/w/k.sec"
	if vrt.Choose("p", 2) == 1 {
		enc = append(enc, "-p", "/w/k.pub")
		sec, other = other, sec
	}
	match := sec == home+".sec"
	if vrt.Choose("s", 2) == 1 {
		dec = append(dec, "-s", "/w/k.sec")
		match = !match
	}
	names, data := snap()
	vrt.Assert(run(enc...) == 0, "sealing works")
	same(names, data, "only the sealed message is written", c)
	vrt.Assert(crypto.Open(sec, c, "/w/check") == nil, "sealed for the key asked for")
	vrt.Assert(vrt.EqBytes(file("/w/check"), msg), "the whole message")
	vrt.Assert(crypto.Open(other, c, "/w/check2") != nil, "sealed for no other key")
	names, data = snap()
	code := run(dec...)
	vrt.Assert((code == 0) == match, "opened with the key asked for")
	same(names, data, "only the message is written", "/w/out")
	if code == 0 {
		vrt.Assert(vrt.EqBytes(file("/w/out"), msg), "the whole message")
		vrt.Reach("opened")
	}
	vrt.Reach("done")
}

// VH_M02_user: the default key belongs to the current user, whatever the
// name and home directory.
func VH_M02_user() {
	environ()
	name := string(vrt.Bytes("name", 1, 3))
	ok := true
	for i := 0; i < len(name); i++ {
		ok = vrt.And(ok, vrt.And(name[i] > ' ', vrt.And(name[i] != '/', vrt.And(name[i] != '.', name[i] < 127))))
	}
	vrt.Assume(ok)
	vuser.Me.Username = name
	where := "/home/" + name + "/.signify/" + name
	switch vrt.Choose("home", 3) {
	case 0:
		vuser.Me.HomeDir = "/home/" + name
	case 1:
		vuser.Me.HomeDir = ""
		where = name
	case 2:
		vuser.Err = vuser.ErrUser
		where = ""
	}
	answers()
	if where == "" {
		vrt.Assert(run("-G", "-n") != 0, "no default key without a user")
		vos.Put("/w/msg", []byte("hi"), 0644)
		vrt.Assert(run("-S", "-m", "/w/msg") != 0, "no default key without a user")
		vrt.Assert(run("-V", "-m", "/w/msg") != 0, "no default key without a user")
		vrt.Assert(len(vos.Files()) == 1, "nothing written")
		vrt.Reach("nobody")
		return
	}
	keypair(where, nil)
	vos.Put("/w/msg", []byte("hi"), 0644)
	vrt.Assert(run("-S", "-m", "/w/msg") == 0, "signs with the default key")
	vrt.Assert(run("-V", "-m", "/w/msg") == 0, "verifies with the default key")
	vrt.Assert(signify.Verify(where+".pub", "/w/msg", "") == nil, "the default key is the user's")
	vrt.Reach("somebody")
}

// VH_M02_missing: an operation that lacks an argument fails and writes nothing.
func VH_M02_missing() {
	keypair(home, nil)
	vos.Put("/w/msg", []byte("hi"), 0644)
	vrt.Assert(crypto.Seal(home+".pub", "/w/msg", "/w/c") == nil, "sealing works")
	answers()
	args := [][]string{
		{"-S"},
		{"-V"},
		{"-E"},
		{"-D"},
		{"-D", "-c", "/w/c"},
		{"-E", "-c", "/w/c2"},
		{"-D", "-m", "/w/out"},
		{"-S", "-m", "/w/nothing"},
		{"-V", "-m", "/w/nothing"},
		{"-E", "-m", "/w/nothing", "-c", "/w/c2"},
		{"-D", "-c", "/w/nothing", "-m", "/w/out"},
		{},
	}[vrt.Choose("which", 12)]
	names, data := snap()
	code := run(args...)
	vrt.Assert(code != 0, "an incomplete command fails")
	vrt.Assert(!saysOK(), "no success announced")
	vrt.Assert(len(vos.ErrText) > 0, "failure is reported")
	same(names, data, "nothing is changed", "/w/out", "/w/c2")
	vrt.Reach("done")
}

// environ sets variables that mean nothing to the command.
func environ() {
	vos.EnvAny = []string{"", "/w/env", "1"}[vrt.Choose("environment", 3)]
}
