package crypto

import (
	"bytes"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

// vhInputs are the files an operation reads, with their content.
type vhInputs struct {
	path []string
	data [][]byte
	mode []vos.FileMode
}

func vhRemember(paths ...string) *vhInputs {
	in := &vhInputs{path: paths}
	for _, p := range paths {
		in.data = append(in.data, vhClone(vhFile(p)))
		in.mode = append(in.mode, vos.Lookup(p).Mode)
	}
	return in
}

func (in *vhInputs) check() {
	for i, p := range in.path {
		n := vos.Lookup(p)
		vrt.Assert(n != nil, "the files read stay where they are")
		if n != nil {
			vrt.Assert(vrt.EqBytes(n.Data, in.data[i]), "the files read keep their content")
			vrt.Assert(n.Mode == in.mode[i], "the files read keep their permissions")
		}
	}
}

// vhSetup makes keys, a message, a signature and a sealed message.
func vhSetup() ([]byte, bool) {
	pass := vhPass(vrt.Choose("pass", 2))
	m := vrt.Bytes("msg", 0, 3)
	vhMake(pass)
	vos.Put(vhMsg, m, 0640)
	ok := signify.Sign(vhSec, vhMsg, "") == nil && Seal(vhPub, vhMsg, "") == nil
	vrt.Assert(ok, "preparations work")
	for _, p := range []string{vhSec, vhPub, vhMsg, vhEnc, vhMsg + ".sig"} {
		vos.Lookup(p).Mode = vos.FileMode(vrt.Int("mode", 0, 0777))
	}
	return m, ok
}

// vhForms gives the files other forms that are or may be accepted.
func vhForms() bool {
	form := vrt.Choose("form", 6)
	front := []byte("\xef\xbb\xbf")
	if form == 5 {
		front = vrt.Bytes("front", 1, 3)
	}
	for _, p := range []string{vhSec, vhPub, vhMsg + ".sig", vhEnc} {
		n := vos.Lookup(p)
		switch form {
		case 1:
			var d []byte
			for _, c := range n.Data {
				if c == '\n' {
					d = append(d, '\r')
				}
				d = append(d, c)
			}
			n.Data = d
		case 2:
			n.Data = n.Data[:len(n.Data)-1]
		case 4, 5:
			n.Data = append(vhClone(front), n.Data...)
		case 3:
			n.Data = append([]byte("untrusted comment: "), n.Data[bytes.IndexByte(n.Data, '\n'):]...)
			n.Data = append(n.Data, '\n')
		}
	}
	return form > 0
}

// VH_R02_same: an output path that names one of the files the operation
// reads, in one way or another.
func VH_R02_same() {
	vhSetup()
	in := vhRemember(vhSec, vhPub, vhMsg, vhEnc, vhMsg+".sig")
	op := vrt.Case(3)
	which := [][]string{{vhSec, vhMsg}, {vhPub, vhMsg}, {vhSec, vhEnc}}[op][vrt.Choose("which", 2)]
	how := vrt.Choose("how", 4)
	out := which
	switch how {
	case 1, 3:
		vos.Lookup(which).Also = "/w/link"
		vos.Lookup(which).Sym = how == 3
		out = "/w/link"
	case 2:
		// the same name, written in another way
		out = "/w/." + which[2:]
		vos.Lookup(which).Also = out
	}
	var err error
	switch op {
	case 0:
		err = signify.Sign(vhSec, vhMsg, out)
	case 1:
		err = Seal(vhPub, vhMsg, out)
	case 2:
		err = Open(vhSec, vhEnc, out)
	}
	vrt.Assert(err != nil || how == 1 || how == 3, "an output that is an input is refused")
	in.check()
	vrt.Assert(vos.OpenHandles == 0, "no file left open for writing")
	vrt.Reach("refused")
}

// VH_R02_default: the default output name may be an input as well.
func VH_R02_default() {
	vhSetup()
	var err error
	var in *vhInputs
	if vrt.Choose("op", 2) == 0 {
		vos.Put("/w/n", vrt.Bytes("other", 0, 2), 0644)
		vos.Put("/w/n.sig", vhFile(vhSec), 0600)
		in = vhRemember("/w/n", "/w/n.sig")
		err = signify.Sign("/w/n.sig", "/w/n", "")
	} else {
		vos.Put("/w/n", vrt.Bytes("other", 0, 2), 0644)
		vos.Put("/w/n.enc", vhFile(vhPub), 0644)
		in = vhRemember("/w/n", "/w/n.enc")
		err = Seal("/w/n.enc", "/w/n", "")
	}
	vrt.Assert(err != nil, "an output that is an input is refused")
	in.check()
	vrt.Reach("refused")
}

// VH_R02_other: whatever fails, the files an operation reads stay as they are.
func VH_R02_other() {
	vhSetup()
	forms := vhForms()
	in := vhRemember(vhSec, vhPub, vhMsg, vhEnc, vhMsg+".sig")
	if vrt.Choose("old", 2) == 1 {
		vos.Put(vhOut, vrt.Bytes("old", 0, 3), 0644)
	}
	if vrt.Choose("wrong", 2) == 1 {
		vhSetPrompt([]byte("mistaken"))
	}
	fail := -1
	if !forms {
		fail = vrt.Int("fail", -1, 60)
		vos.FailPartial = vrt.Choose("partial", 2) == 1
	}
	vos.FailOp = -1
	if fail >= 0 {
		vos.FailErrs = !vos.FailPartial
		vos.FailOp = vos.Ops + fail
	}
	switch vrt.Case(5) {
	case 0:
		signify.Sign(vhSec, vhMsg, vhOut)
	case 1:
		Seal(vhPub, vhMsg, vhOut)
	case 2:
		Open(vhSec, vhEnc, vhOut)
	case 3:
		signify.Verify(vhPub, vhMsg, "")
	case 4:
		if p, err := signify.LoadPrivateKey(vhSec); err == nil {
			p.ToBox()
		}
		if p, err := signify.LoadPublicKey(vhPub); err == nil {
			p.ToBox()
		}
	}
	vos.FailOp = -1
	in.check()
	vrt.Reach("kept")
}

// VH_R02_scratch: an input may have the very name that an operation uses for
// something of its own (a temporary file, say).
func VH_R02_scratch() {
	op := vrt.Case(3)
	vhSetup()
	vhSetPrompt(vhPass(1))
	sec, pub, msg, enc := vhFile(vhSec), vhFile(vhPub), vhFile(vhMsg), vhFile(vhEnc)
	do := func(a, b string) error {
		switch op {
		case 0:
			return signify.Sign(a, b, vhOut)
		case 1:
			return Seal(a, b, vhOut)
		}
		return Open(a, b, vhOut)
	}
	key, data := vhSec, vhMsg
	kd, dd := sec, msg
	switch op {
	case 1:
		key, kd = vhPub, pub
	case 2:
		data, dd = vhEnc, enc
	}
	vos.Touched = nil
	vrt.Assert(do(key, data) == nil, "the operation works")
	names := append([]string(nil), vos.Touched...)
	for _, n := range names {
		if n == vhOut {
			continue
		}
		vos.Put(n, kd, 0600)
		do(n, data)
		vrt.Assert(vrt.EqBytes(vhFile(n), kd), "the files read keep their content")
		vos.Put(n, dd, 0600)
		do(key, n)
		vrt.Assert(vrt.EqBytes(vhFile(n), dd), "the files read keep their content")
		vos.Del(n)
	}
	vrt.Reach("done")
}
