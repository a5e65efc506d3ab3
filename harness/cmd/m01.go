package vcmd

import (
	stdb64 "encoding/base64"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

func payload(path string) (head, b []byte) {
	d := file(path)
	i := 0
	for i < len(d) && d[i] != '\n' {
		i++
	}
	j := i + 1
	for j < len(d) && d[j] != '\n' {
		j++
	}
	b, err := stdb64.StdEncoding.DecodeString(string(d[i+1 : j]))
	if err != nil {
		return nil, nil
	}
	return d[:i+1], b
}

// VH_M01_verify: -V succeeds exactly for a good signature and says so.
func VH_M01_verify() {
	keypair("/w/k", nil)
	msg := []byte("attack at dawn")
	vos.Put("/w/msg", msg, 0644)
	vrt.Assert(signify.Sign("/w/k.sec", "/w/msg", "") == nil, "signing works")
	args := []string{"-V", "-p", "/w/k.pub", "-m", "/w/msg"}
	if vrt.Choose("x", 2) == 1 {
		args = append(args, "-x", "/w/msg.sig")
	}
	want := true
	switch vrt.Choose("how", 6) {
	case 1: // another message
		m := vrt.Bytes("msg", 0, 20)
		vos.Put("/w/msg", m, 0644)
		want = vrt.EqBytes(m, msg)
	case 2: // a damaged signature
		h, p := payload("/w/msg.sig")
		d := vrt.Bytes("delta", 74, 74)
		// S added to itself is the only freedom; it is pinned by S < L
		z := byte(0)
		for i := range p {
			p[i] ^= d[i]
			z |= d[i]
		}
		vos.Put("/w/msg.sig", append(clone(h), append([]byte(stdb64.StdEncoding.EncodeToString(p)), '\n')...), 0644)
		want = z == 0
	case 3:
		vos.Del("/w/msg")
		want = false
	case 4:
		vos.Del("/w/msg.sig")
		want = false
	case 5:
		vos.Del("/w/k.pub")
		want = false
	}
	names, data := snap()
	code := run(args...)
	if code == 0 {
		vrt.Assert(want, "verification succeeds only for a good signature")
		vrt.Assert(string(vos.OutText) == "/w/msg: OK\n", "success is announced")
		vrt.Reach("good")
	} else {
		vrt.Assert(vrt.Not(want), "verification of a good signature succeeds")
		vrt.Assert(!saysOK(), "no success announced on failure")
		vrt.Assert(len(vos.ErrText) > 0, "failure is reported")
		vrt.Reach("bad")
	}
	same(names, data, "verification changes nothing")
}

// VH_M01_sign: -S under any single I/O fault, wrong passphrase or missing
// input: status 0 only when a good signature is in place.
func VH_M01_sign() {
	pass := []byte(nil)
	if vrt.Choose("pass", 2) == 1 {
		pass = []byte("pw")
	}
	keypair("/w/k", pass)
	msg := vrt.Bytes("msg", 0, 12)
	vos.Put("/w/msg", msg, 0644)
	ok := true
	how := vrt.Choose("how", 6)
	typed := []byte("pw")
	switch how {
	case 1:
		vos.FailErrs = true
		vos.FailOp = vrt.Int("failop", 0, 20)
		vos.FailPartial = vrt.Choose("partial", 2) == 1
		vos.Ops = 0
	case 2:
		typed = vrt.Bytes("typed", 0, 5)
		ok = vrt.Or(len(pass) == 0, vrt.EqBytes(typed, pass))
	case 3:
		vos.Del("/w/msg")
		ok = false
	case 4:
		vos.Del("/w/k.sec")
		ok = false
	case 5: // nobody at the terminal
		ok = len(pass) == 0
	}
	if how == 5 {
		answers()
	} else {
		answers(typed)
	}
	code := run("-S", "-s", "/w/k.sec", "-m", "/w/msg", "-x", "/w/out")
	vos.FailOp = -1
	if code == 0 {
		vrt.Assert(ok, "status 0 only when signing was possible")
		vrt.Assert(signify.Verify("/w/k.pub", "/w/msg", "/w/out") == nil, "status 0 means a good signature")
		vrt.Reach("signed")
	} else {
		vrt.Assert(vrt.Or(vrt.Not(ok), vos.Faulted), "signing works when nothing is wrong")
		vrt.Assert(len(vos.ErrText) > 0, "failure is reported")
		vrt.Reach("refused")
	}
}

// VH_M01_generate: -G: status 0 only when a usable pair is in place.
func VH_M01_generate() {
	var args []string
	ok := true
	typed := []byte("pw")
	how := vrt.Choose("how", 5)
	switch how {
	case 0:
		args = []string{"-n"}
		answers()
		typed = nil
	case 1:
		answers(typed, typed)
	case 2:
		typed = vrt.Bytes("typed", 0, 4)
		again := vrt.Bytes("again", 0, 4)
		answers(typed, again)
		ok = vrt.EqBytes(typed, again)
	case 3:
		args = []string{"-n"}
		vos.FailErrs = true
		vos.FailOp = vrt.Int("failop", 0, 20)
		vos.FailPartial = vrt.Choose("partial", 2) == 1
		vos.Ops = 0
		typed = nil
	case 4:
		answers(typed)
		ok = false
	}
	code := run(append(append([]string{"-G"}, args...), "-p", "/w/k")...)
	vos.FailOp = -1
	if code == 0 {
		vrt.Assert(ok, "status 0 only when a key pair can be generated")
		vos.Put("/w/msg", []byte("hi"), 0644)
		answers(typed)
		vrt.Assert(signify.Sign("/w/k.sec", "/w/msg", "") == nil, "status 0 means a usable secret key")
		vrt.Assert(signify.Verify("/w/k.pub", "/w/msg", "") == nil, "status 0 means a matching public key")
		vrt.Reach("generated")
	} else {
		vrt.Assert(vrt.Or(vrt.Not(ok), vos.Faulted), "generation works when nothing is wrong")
		vrt.Assert(len(vos.ErrText) > 0, "failure is reported")
		vrt.Reach("refused")
	}
}

// VH_M01_crypt: -E and -D under any single I/O fault: status 0 only when
// the complete result is in place.
func VH_M01_crypt() {
	keypair("/w/k", nil)
	msg := vrt.Bytes("msg", 0, 12)
	vos.Put("/w/msg", msg, 0644)
	dec := vrt.Choose("op", 2) == 1
	if dec {
		vrt.Assert(crypto.Seal("/w/k.pub", "/w/msg", "/w/c") == nil, "sealing works")
	}
	ok := true
	switch vrt.Choose("how", 4) {
	case 1:
		vos.FailErrs = true
		vos.FailOp = vrt.Int("failop", 0, 40)
		vos.FailPartial = vrt.Choose("partial", 2) == 1
		vos.Ops = 0
	case 2:
		if dec {
			vos.Del("/w/k.sec")
		} else {
			vos.Del("/w/k.pub")
		}
		ok = false
	case 3:
		if dec {
			vos.Del("/w/c")
		} else {
			vos.Del("/w/msg")
		}
		ok = false
	}
	var code int
	var name string
	if dec {
		code = run("-D", "-s", "/w/k.sec", "-c", "/w/c", "-m", "/w/out")
		name = "/w/c"
	} else {
		code = run("-E", "-p", "/w/k.pub", "-m", "/w/msg", "-c", "/w/c")
		name = "/w/msg"
	}
	out := vos.OutText
	vos.FailOp = -1
	if code == 0 {
		vrt.Assert(ok, "status 0 only when the operation was possible")
		vrt.Assert(string(out) == name+": OK\n", "success is announced")
		if !dec {
			vrt.Assert(crypto.Open("/w/k.sec", "/w/c", "/w/out") == nil, "status 0 means a message that opens")
		}
		vrt.Assert(vrt.EqBytes(file("/w/out"), msg), "status 0 means the whole message")
		vrt.Reach("done")
	} else {
		vrt.Assert(vrt.Or(vrt.Not(ok), vos.Faulted), "works when nothing is wrong")
		vrt.Assert(!saysOK(), "no success announced on failure")
		vrt.Assert(len(vos.ErrText) > 0, "failure is reported")
		vrt.Reach("refused")
	}
}

// VH_M01_tampered: -D of a message that was damaged anywhere fails.
func VH_M01_tampered() {
	keypair("/w/k", nil)
	vos.Put("/w/msg", []byte("attack at dawn"), 0644)
	vrt.Assert(crypto.Seal("/w/k.pub", "/w/msg", "/w/c") == nil, "sealing works")
	h, p := payload("/w/c")
	d := vrt.Bytes("delta", len(p), len(p))
	z := byte(0)
	for i := range p {
		p[i] ^= d[i]
		z |= d[i]
	}
	vrt.Assume(z != 0)
	vos.Put("/w/c", append(clone(h), append([]byte(stdb64.StdEncoding.EncodeToString(p)), '\n')...), 0644)
	code := run("-D", "-s", "/w/k.sec", "-c", "/w/c", "-m", "/w/out")
	vrt.Assert(code != 0, "a damaged message does not open")
	vrt.Assert(!saysOK(), "no success announced on failure")
	vrt.Assert(len(file("/w/out")) == 0, "nothing released")
	vrt.Reach("refused")
}

// VH_M01_args: whatever argument is added to a verification that fails, it
// does not succeed, unless another operation or help is asked for.
func VH_M01_args() {
	keypair("/w/k", nil)
	keypair(home, nil)
	vos.Put("/w/msg", []byte("attack at dawn"), 0644)
	vrt.Assert(signify.Sign("/w/k.sec", "/w/msg", "") == nil, "signing works")
	vos.Put("/w/msg", []byte("attack at noon"), 0644)
	max := 3
	if vrt.Thorough() {
		max = 5
	}
	arg := string(vrt.Bytes("arg", 0, max))
	base := []string{"-V", "-p", "/w/k.pub", "-m", "/w/msg"}
	at := []int{0, 1, 3, 5}[vrt.Case(4)]
	args := append(append(append([]string{}, base[:at]...), arg), base[at:]...)
	answers()
	names, data := snap()
	code := run(args...)
	vrt.Assert(!saysOK(), "a bad signature is never announced as good")
	if code == 0 {
		help := len(arg) >= 2 && arg[0] == '-' && (arg[1] == 'h' || len(arg) >= 3 && arg[1] == '-' && arg[2] == 'h')
		if !help {
			// the only other operation that can succeed here is signing
			same(names, data, "only signing may succeed", "/w/msg.sig")
			vrt.Assert(signify.Verify(home+".pub", "/w/msg", "") == nil, "status 0 only for an operation that was carried out")
			vrt.Reach("signed instead")
		} else {
			same(names, data, "help changes nothing")
			vrt.Reach("help")
		}
	} else {
		same(names, data, "failure changes nothing")
		vrt.Reach("refused")
	}
}

// VH_M01_none: without an operation nothing succeeds.
func VH_M01_none() {
	keypair(home, nil)
	arg := string(vrt.Bytes("arg", 0, 2))
	val := string(vrt.Bytes("val", 0, 2))
	vrt.Assume(vrt.Not(vrt.Or(vrt.EqStr(arg, "-G"), vrt.EqStr(val, "-G"))))
	answers()
	names, data := snap()
	var code int
	if vrt.Choose("n", 2) == 0 {
		code = run()
	} else {
		code = run(arg, val)
	}
	if code == 0 {
		vrt.Assert(arg == "-h" || val == "-h", "no operation, no success")
	}
	same(names, data, "nothing is written")
	vrt.Reach("done")
}

// VH_M01_extra: further arguments, naming good files, do not make up for a
// failure of the operation asked for.
func VH_M01_extra() {
	keypair("/w/k", nil)
	keypair("/w/l", nil)
	answers()
	msg := []byte("attack at dawn")
	for _, f := range []string{"/w/good", "/w/msg"} {
		vos.Put(f, msg, 0644)
		vrt.Assert(signify.Sign("/w/k.sec", f, "") == nil, "signing works")
		vrt.Assert(crypto.Seal("/w/k.pub", f, f+".enc") == nil, "sealing works")
	}
	op := vrt.Choose("op", 4)
	switch vrt.Choose("how", 3) {
	case 0: // the message is missing (needed by all but -D)
		vrt.Assume(op != 3)
		vos.Del("/w/msg")
	case 1: // another message, another key
		vrt.Assume(op == 0 || op == 3)
		d := vrt.Bytes("delta", len(msg), len(msg))
		vrt.Assume(vrt.Not(vrt.EqBytes(d, make([]byte, len(d)))))
		m := clone(msg)
		for i := range d {
			m[i] ^= d[i]
		}
		vos.Put("/w/msg", m, 0644)
		vrt.Assert(crypto.Seal("/w/l.pub", "/w/msg", "/w/msg.enc") == nil, "sealing works")
	case 2: // the signature or encrypted message is missing
		vrt.Assume(op == 0 || op == 3)
		vos.Del("/w/msg.sig")
		vos.Del("/w/msg.enc")
	}
	args := [][]string{
		{"-V", "-p", "/w/k.pub", "-m", "/w/msg"},
		{"-S", "-s", "/w/k.sec", "-m", "/w/msg"},
		{"-E", "-p", "/w/k.pub", "-m", "/w/msg"},
		{"-D", "-s", "/w/k.sec", "-c", "/w/msg.enc", "-m", "/w/out"},
	}[op]
	extra := [][]string{
		{"/w/good"},
		{"/w/good", "/w/good"},
		{"/w/good.enc", "/w/out"},
		{"--", "/w/good"},
		{"/w/nothing", "/w/good"},
		{"good"},
	}[vrt.Choose("extra", 6)]
	code := run(append(args, extra...)...)
	vrt.Assert(code != 0, "a failure is not made up for by further arguments")
	vrt.Assert(len(vos.ErrText) > 0, "failure is reported")
	vrt.Reach("refused")
}
