package vcmd

import (
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

// vhAbs is where a path leads.
func vhAbs(p string) string {
	if p[0] == '/' {
		return p
	}
	return vos.Wd + "/" + p
}

// VH_M02_relative: paths are relative to the working directory, wherever the
// other files are.
func VH_M02_relative() {
	keys := []string{"k", "keys/k", "/w/k", "~/k", "-n"}
	msgs := []string{"m", "s/m", "/w/m", "~/m", "$HOME/m", "-x"}
	sigs := []string{"", "x", "t/x", "/w/x", "~/x"}
	outs := []string{"o", "t/o", "~u/o"}
	i, j := vrt.Choose("key", len(keys)), vrt.Choose("msg", len(msgs))
	sig, out := sigs[(2*i+j)%len(sigs)], outs[(i+j)%len(outs)]
	if vrt.Thorough() {
		sig, out = sigs[vrt.Choose("sig", len(sigs))], outs[vrt.Choose("out", len(outs))]
	}
	key, msg := keys[i], msgs[j]
	vos.Wd = "/home/u/d"
	answers()
	names, data := snap()
	vrt.Assert(run("-G", "-n", "-p", key) == 0, "generation works")
	same(names, data, "only the pair is written", vhAbs(key+".sec"), vhAbs(key+".pub"))
	vrt.Assert(exists(key+".sec") && exists(key+".pub"), "the pair is where it belongs")
	vos.Put(msg, []byte("hi"), 0644)
	names, data = snap()
	sargs := []string{"-S", "-s", key + ".sec", "-m", msg}
	vargs := []string{"-V", "-p", key + ".pub", "-m", msg}
	eargs := []string{"-E", "-p", key + ".pub", "-m", msg}
	at, enc := msg+".sig", msg+".enc"
	if sig != "" {
		sargs = append(sargs, "-x", sig)
		vargs = append(vargs, "-x", sig)
		at = sig
		enc = sig + "c"
		eargs = append(eargs, "-c", enc)
	}
	vrt.Assert(run(sargs...) == 0, "signing works")
	same(names, data, "only the signature is written", vhAbs(at))
	vrt.Assert(exists(at), "the signature is where it belongs")
	vrt.Assert(run(vargs...) == 0, "verifying works")
	same(names, data, "nothing else is written", vhAbs(at))
	vrt.Assert(signify.Verify(key+".pub", msg, at) == nil, "the signature is good")
	vrt.Assert(run(eargs...) == 0, "sealing works")
	same(names, data, "only the sealed message is written", vhAbs(at), vhAbs(enc))
	vrt.Assert(exists(enc), "the sealed message is where it belongs")
	vrt.Assert(run("-D", "-s", key+".sec", "-c", enc, "-m", out) == 0, "opening works")
	same(names, data, "only the message is written", vhAbs(at), vhAbs(enc), vhAbs(out))
	vrt.Assert(vrt.EqBytes(file(out), []byte("hi")), "the whole message")
	vrt.Reach("done")
}

// VH_M02_names: the names given are used as they are, whatever they look like.
func VH_M02_names() {
	n := vrt.Bytes("name", 1, 3)
	ok := true
	for _, c := range n {
		ok = vrt.And(ok, vrt.And(c != 0, vrt.And(c != '/', vrt.And(c != '\n', c < 127))))
	}
	vrt.Assume(ok)
	which := vrt.Case(3)
	end := ""
	if which < 2 {
		end = []string{"", ".pub", ".sec", ".sig", ".enc", ".PUB", "."}[vrt.Choose("end", 7)]
	}
	key, msg := "/w/k"+end, "/w/m"+end
	if which == 2 {
		// a relative path
		for _, c := range n {
			vrt.Assume(c != '.')
		}
		end = []string{"", ".sig", "/m"}[vrt.Choose("rel", 3)]
		key, msg = "k", string(n)+end
		vrt.Assume(vrt.Not(vrt.EqStr(msg, "k.sec")))
		vrt.Assume(vrt.Not(vrt.EqStr(msg, "k.pub")))
	} else if which == 0 {
		key = "/w/" + string(n) + end
		vrt.Assume(vrt.Not(vrt.EqStr(key+".sec", msg)))
		vrt.Assume(vrt.Not(vrt.EqStr(key+".pub", msg)))
		vrt.Assume(vrt.Not(vrt.EqStr(key+".sec", msg+".sig")))
		vrt.Assume(vrt.Not(vrt.EqStr(key+".pub", msg+".sig")))
		vrt.Assume(vrt.Not(vrt.EqStr(key+".sec", msg+".enc")))
		vrt.Assume(vrt.Not(vrt.EqStr(key+".pub", msg+".enc")))
	} else {
		msg = "/v/" + string(n) + end
	}
	answers()
	names, data := snap()
	vrt.Assert(run("-G", "-n", "-p", key) == 0, "generation works")
	same(names, data, "only the pair is written", vhAbs(key+".sec"), vhAbs(key+".pub"))
	vrt.Assert(exists(key+".sec") && exists(key+".pub"), "the pair is where it belongs")
	vos.Put(msg, []byte("hi"), 0644)
	names, data = snap()
	vrt.Assert(run("-S", "-s", key+".sec", "-m", msg) == 0, "signing works")
	vrt.Assert(exists(msg+".sig"), "the signature is where it belongs")
	vrt.Assert(run("-V", "-p", key+".pub", "-m", msg) == 0, "verifying works")
	vrt.Assert(run("-E", "-p", key+".pub", "-m", msg) == 0, "sealing works")
	vrt.Assert(exists(msg+".enc"), "the sealed message is where it belongs")
	same(names, data, "only signature and sealed message are written", vhAbs(msg+".sig"), vhAbs(msg+".enc"))
	vrt.Assert(crypto.Open(key+".sec", msg+".enc", "/x/out") == nil, "sealed for the key asked for")
	vrt.Reach("done")
}
