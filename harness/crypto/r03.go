package crypto

import (
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

// vhCrash runs f as a process that dies during one operation that changes files.
func vhCrash(f func()) bool {
	at := vrt.Int("crash", 0, 60)
	vos.CrashOp = vos.Changes + at
	_, crashed := vos.Process(f)
	died := vos.CrashOp < 0
	vos.CrashOp = -1
	vos.OpenHandles = 0
	vrt.Assert(!crashed, "no panic")
	if !died {
		vrt.Stop()
	}
	return died
}

// VH_R03_sign: what a crash leaves of a signature is the whole signature, the
// one that was there before, or nothing that verifies.
func VH_R03_sign() {
	old := vrt.Case(3)
	vhMake(vhPass(vrt.Choose("pass", 2)))
	m := vrt.Bytes("msg", 0, 3)
	vos.Put(vhMsg, m, 0644)
	if old > 0 {
		// an old signature, of this message or another one
		if old == 1 {
			vos.Put(vhMsg, append(vhClone(m), 'x'), 0644)
		}
		vrt.Assert(signify.Sign(vhSec, vhMsg, "") == nil, "signing works")
		vos.Put(vhMsg, m, 0644)
	}
	vrt.Assert(signify.Sign(vhSec, vhMsg, "/w/whole") == nil, "signing works")
	in := vhRemember(vhSec, vhPub, vhMsg)
	vhCrash(func() { signify.Sign(vhSec, vhMsg, "") })
	in.check()
	if signify.Verify(vhPub, vhMsg, "") == nil {
		a, b := vhFile(vhMsg+".sig"), vhFile("/w/whole")
		vrt.Assert(len(a) >= len(b)-1 && vrt.EqBytes(a[:len(b)-1], b[:len(b)-1]), "what verifies is the whole signature")
		vrt.Reach("whole")
	}
	vrt.Assert(signify.Sign(vhSec, vhMsg, "") == nil, "signing works after the crash")
	vrt.Assert(signify.Verify(vhPub, vhMsg, "") == nil, "the signature is valid then")
	vrt.Reach("again")
}

// VH_R03_seal: what a crash leaves of an encrypted message opens to the whole
// message or not at all.
func VH_R03_seal() {
	if !vrt.Thorough() {
		vos.CrashStep = 17
	}
	c := vrt.Case(4)
	old := c%2 == 1
	vhMake(vhPass(c / 2))
	m := vrt.Bytes("msg", 0, 1)
	before := []byte("previous")
	if old {
		vos.Put(vhMsg, before, 0644)
		vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	}
	vos.Put(vhMsg, m, 0644)
	in := vhRemember(vhSec, vhPub, vhMsg)
	vhCrash(func() { Seal(vhPub, vhMsg, "") })
	in.check()
	if Open(vhSec, vhEnc, vhOut) == nil {
		out := vhFile(vhOut)
		vrt.Assert(vrt.Or(vrt.EqBytes(out, m), old && vrt.EqBytes(out, before)), "what opens is a whole message")
		vrt.Reach("whole")
	}
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works after the crash")
	vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil && vrt.EqBytes(vhFile(vhOut), m), "the message comes back then")
	vrt.Reach("again")
}

// VH_R03_big: the same for messages of two chunks.
func VH_R03_big() {
	vhMake(nil)
	n := []int{vhChunk, vhChunk + 1, 2 * vhChunk}[vrt.Choose("size", 3)]
	m := vhText(n)
	vos.Put(vhMsg, m, 0644)
	enc := 0
	{
		vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
		enc = len(vhFile(vhEnc))
	}
	at := []int{0, 44, 130, 150, 22000, 22015, 22120, 22200, enc - 100, enc - 30, enc - 3, enc - 2}[vrt.Choose("cut", 12)]
	// the process dies at the first write beyond that place
	died := false
	vos.Hook = func(kind, path string) {
		if kind == "write" && len(vhFile(vhEnc)) >= at && !died {
			died = true
			vos.Crash()
		}
	}
	vos.Process(func() { Seal(vhPub, vhMsg, "") })
	vos.Hook = nil
	vos.OpenHandles = 0
	if !died {
		vrt.Stop()
	}
	if Open(vhSec, vhEnc, vhOut) == nil {
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "what opens is a whole message")
	}
	vrt.Reach("cut")
}

// VH_R03_open: what a crash leaves of the recovered message is its beginning
// or what was there before.
func VH_R03_open() {
	vhMake(vhPass(vrt.Choose("pass", 2)))
	m := vrt.Bytes("msg", 0, 12)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	old := vrt.Choose("old", 2) == 1
	before := []byte("previous")
	if old {
		vos.Put(vhOut, before, 0644)
	}
	in := vhRemember(vhSec, vhPub, vhMsg, vhEnc)
	vos.MaxRead = 1000
	vhCrash(func() { Open(vhSec, vhEnc, vhOut) })
	in.check()
	out := vhFile(vhOut)
	vrt.Assert(vrt.Or(len(out) <= len(m) && vrt.EqBytes(out, m[:len(out)]), old && vrt.EqBytes(out, before)), "what is left is the beginning of the message or what was there")
	vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil && vrt.EqBytes(vhFile(vhOut), m), "opening works after the crash")
	vrt.Reach("again")
}

// VH_R03_openbig: the same for messages of several chunks, over older files
// of several sizes: the output is looked at before every change.
func VH_R03_openbig() {
	vhMake(nil)
	n := []int{vhChunk, vhChunk + 1, 2*vhChunk + 2}[vrt.Case(3)]
	m := vhText(n)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	var before []byte
	if k := vrt.Choose("old", 4); k > 0 {
		before = make([]byte, []int{100, vhChunk + 1, 3 * vhChunk}[k-1])
		vos.Put(vhOut, before, 0644)
	}
	looks := 0
	vos.Hook = func(kind, path string) {
		if kind == "read" || kind == "stat" {
			return
		}
		out := vhFile(vhOut)
		vrt.Assert(vrt.Or(len(out) <= len(m) && vrt.EqBytes(out, m[:len(out)]), vrt.EqBytes(out, before)), "what is left is the beginning of the message or what was there")
		looks++
	}
	err := Open(vhSec, vhEnc, vhOut)
	vos.Hook = nil
	vrt.Assert(err == nil && vrt.EqBytes(vhFile(vhOut), m), "opening works")
	if looks > 2 {
		vrt.Reach("looks")
	}
}

// VH_R03_generate: what a crash leaves of a key pair is refused, incomplete or
// whole: no secret key that works but for the wrong public key, and none that
// others can read.
func VH_R03_generate() {
	pass := vhPass(vrt.Choose("pass", 2))
	if vrt.Case(2) == 1 {
		vhMake(vhPass(vrt.Choose("oldpass", 2)))
	}
	vos.Put(vhMsg, []byte("m"), 0644)
	vhSetPrompt(pass)
	vhCrash(func() { signify.GenerateKey(vhKey, pass, &signify.GenerateOptions{Rounds: 1}) })
	if n := vos.Lookup(vhSec); n != nil {
		vrt.Assert(n.Wide&077 == 0, "the secret key is never readable by others")
	}
	if signify.Sign(vhSec, vhMsg, "") == nil {
		vrt.Reach("signs")
		s, p := vhUnstd(vhPayloadLine(vhMsg+".sig")), vhUnstd(vhPayloadLine(vhPub))
		if len(p) == 42 && vrt.EqBytes(s[2:10], p[2:10]) {
			vrt.Assert(signify.Verify(vhPub, vhMsg, "") == nil, "keys with the same number match")
			vrt.Reach("pair")
		}
	}
	vrt.Assert(signify.GenerateKey(vhKey, pass, &signify.GenerateOptions{Rounds: 1}) == nil, "key generation works after the crash")
	vrt.Assert(signify.Sign(vhSec, vhMsg, "") == nil && signify.Verify(vhPub, vhMsg, "") == nil, "the keys match then")
	vrt.Reach("again")
}

// vhPayloadLine is the second line of a file.
func vhPayloadLine(path string) []byte {
	d := vhFile(path)
	for i, c := range d {
		if c == '\n' {
			return d[i+1:]
		}
	}
	return nil
}
