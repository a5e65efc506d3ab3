package crypto

import (
	"bytes"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_C05_sealshort: however the message source splits its reads, the whole
// message is sealed.
func VH_C05_sealshort() {
	n := []int{20, vhChunk + 7, 2*vhChunk + 1}[vrt.Case(3)]
	priv, pub := vhMake(nil)
	m := vhText(n)
	r := &vhReader{b: m, fail: -1}
	switch vrt.Choose("mode", 6) {
	case 4:
		r.idle = 2
		r.max = 9000
	case 5:
		r.idle = 3
		r.eof = true
	case 0:
		r.split(n, 2)
	case 1:
		r.max = 5000
	case 2:
		r.max = vhChunk - 1
		r.eof = true
	case 3:
		r.eof = true
		r.split(n, 1)
	}
	if n < 100 && vrt.Choose("onebyte", 2) == 1 {
		r.max = 1
	}
	var enc, out bytes.Buffer
	err := seal(pub, r, n, &enc)
	vrt.Assert(err == nil, "sealing works")
	if err != nil {
		return
	}
	err = open(priv, bytes.NewReader(enc.Bytes()), &out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(out.Bytes(), m), "the whole message comes back")
	vrt.Reach("done")
}

// VH_C05_openshort: the same for the encrypted side.
func VH_C05_openshort() {
	n := []int{20, vhChunk + 7, 2*vhChunk + 1}[vrt.Case(3)]
	priv, pub := vhMake(nil)
	m := vhText(n)
	p := vhSealed(pub, m)
	r := &vhReader{b: p, fail: -1}
	switch vrt.Choose("mode", 6) {
	case 4:
		r.idle = 2
		r.max = 9000
	case 5:
		r.idle = 3
		r.eof = true
	case 0:
		r.split(n, 2)
	case 1:
		r.max = 5000
	case 2:
		r.max = 71
		if n > 100 {
			r.max = vhChunk
		}
		r.eof = true
	case 3:
		r.eof = true
		r.split(n, 1)
	}
	if n < 100 && vrt.Choose("onebyte", 2) == 1 {
		r.max = 1
	}
	var out bytes.Buffer
	err := open(priv, r, &out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(out.Bytes(), m), "the whole message comes back")
	vrt.Reach("done")
}

// VH_C05_file: files read in arbitrary pieces.
func VH_C05_file() {
	vhMake(nil)
	m := vhText([]int{1, 30, 45}[vrt.Choose("len", 3)])
	vos.Put(vhMsg, m, 0644)
	mode := vrt.Choose("mode", 4)
	set := func() {
		vos.OneByteReads, vos.MaxRead, vos.SplitReads = false, 0, 0
		switch mode {
		case 0:
			vos.OneByteReads = true
		case 1:
			vos.MaxRead = 7
		case 2:
			vos.SplitReads = 2
		case 3:
			vos.MaxRead = 73
		}
	}
	if vrt.Choose("phase", 2) == 0 {
		set()
		vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
		vos.OneByteReads, vos.MaxRead, vos.SplitReads = false, 0, 0
		vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
	} else {
		vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
		set()
		vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
	}
	vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the whole message comes back")
	vrt.Reach("done")
}

// VH_C05_shrink: a source that ends early (a file truncated while it is being
// sealed) is an error; one that has grown yields the announced prefix or an
// error.
func VH_C05_shrink() {
	n := []int{10, vhChunk + 3}[vrt.Case(2)]
	priv, pub := vhMake(nil)
	m := vhText(n + 4)
	k := vrt.Int("actual", 0, 40000)
	vrt.Assume(k <= n+4)
	var enc, out bytes.Buffer
	err := seal(pub, &vhReader{b: m[:k], fail: -1}, n, &enc)
	vrt.Assert(vrt.Implies(k < n, err != nil), "a source that ends early is reported")
	vrt.Assert(vrt.Implies(k > n, err != nil), "a source that goes on is reported")
	vrt.Assert(vrt.Implies(k == n, err == nil), "sealing works")
	if err == nil {
		err = open(priv, bytes.NewReader(enc.Bytes()), &out)
		vrt.Assert(err == nil, "what was sealed opens")
		o := out.Bytes()
		vrt.Assert(len(o) >= n && vrt.EqBytes(o[:n], m[:n]), "the announced part of the message is there")
		vrt.Reach("sealed")
	} else {
		vrt.Reach("refused")
	}
}

// VH_C06_seal: an I/O failure anywhere in Seal is reported.
func VH_C06_seal() {
	vhMake(nil)
	m := vhText([]int{0, 1, 40, 200}[vrt.Choose("len", 4)])
	vos.FailErrs = len(m) < 2
	vos.Put(vhMsg, m, 0644)
	vos.Ops = 0
	vos.FailOp = vrt.Int("fail", 0, 60)
	vos.FailPartial = vrt.Choose("partial", 2) == 1
	err := Seal(vhPub, vhMsg, "")
	vos.FailOp = -1
	if vos.Faulted {
		vrt.Assert(err != nil, "failed "+vos.FaultKind+" reported by Seal")
		vrt.Reach("faulted")
	} else {
		vrt.Assert(err == nil, "sealing works")
		vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
		vrt.Reach("worked")
	}
	vrt.Assert(vrt.EqBytes(vhFile(vhMsg), m), "the message file is untouched")
}

// VH_C06_open: the same for Open.
func VH_C06_open() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhMake(pass)
	m := vhText([]int{0, 1, 40, 200}[vrt.Choose("len", 4)])
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	vos.Ops = 0
	vos.FailErrs = len(m) == 1 && pass == nil
	vos.FailOp = vrt.Int("fail", 0, 400)
	vos.FailPartial = vrt.Choose("partial", 2) == 1
	err := Open(vhSec, vhEnc, vhOut)
	vos.FailOp = -1
	if vos.Faulted {
		vrt.Assert(err != nil, "failed "+vos.FaultKind+" reported by Open")
		vrt.Reach("faulted")
	} else {
		vrt.Assert(err == nil, "opening works")
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
		vrt.Reach("worked")
	}
}

// VH_C06_big: write failures in the middle of a message of several chunks.
func VH_C06_big() {
	vhAnyErr()
	priv, pub := vhMake(nil)
	m := vhText(2*vhChunk + 50)
	s := &vhSink{fail: vrt.Int("fail", -1, 10)}
	err := seal(pub, bytes.NewReader(m), len(m), s)
	if s.fail >= 0 && s.calls > s.fail {
		vrt.Assert(err != nil, "failed write reported by sealing")
		vrt.Reach("faulted")
		return
	}
	vrt.Assert(err == nil, "sealing works")
	o := &vhSink{fail: vrt.Int("fail2", -1, 10)}
	err = open(priv, bytes.NewReader(s.b), o)
	if o.fail >= 0 && o.calls > o.fail {
		vrt.Assert(err != nil, "failed write reported by opening")
		vrt.Reach("faulted")
		return
	}
	vrt.Assert(err == nil && vrt.EqBytes(o.b, m), "opening works")
	vrt.Reach("worked")
}

// VH_C06_readfail: a source that fails in the middle.
func VH_C06_readfail() {
	vhAnyErr()
	priv, pub := vhMake(nil)
	m := vhText(2*vhChunk + 50)
	r := &vhReader{b: m, fail: vrt.Int("fail", -1, 12), max: 9000}
	var enc bytes.Buffer
	err := seal(pub, r, len(m), &enc)
	if r.fail >= 0 && r.calls > r.fail {
		vrt.Assert(err != nil, "failed read reported by sealing")
		vrt.Reach("faulted")
		return
	}
	vrt.Assert(err == nil, "sealing works")
	if err != nil {
		return
	}
	q := &vhReader{b: enc.Bytes(), fail: vrt.Int("fail2", -1, 12), max: 9000}
	var out bytes.Buffer
	err = open(priv, q, &out)
	if q.fail >= 0 && q.calls > q.fail {
		vrt.Assert(err != nil, "failed read reported by opening")
		vrt.Reach("faulted")
		return
	}
	vrt.Assert(err == nil && vrt.EqBytes(out.Bytes(), m), "opening works")
	vrt.Reach("worked")
}

// VH_C06_keys: missing or unusable keys and files.
func VH_C06_keys() {
	pass := vhPass(1)
	vhMake(pass)
	m := vhText(20)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	how := vrt.Choose("how", 6)
	switch how {
	case 0:
		vos.Del(vhPub)
		vos.Del(vhEnc)
		vrt.Assert(Seal(vhPub, vhMsg, "") != nil, "missing public key reported")
		vrt.Assert(vos.Lookup(vhEnc) == nil, "nothing written without a key")
	case 1:
		vos.Del(vhMsg)
		vos.Del(vhEnc)
		vrt.Assert(Seal(vhPub, vhMsg, "") != nil, "missing message reported")
		vrt.Assert(vos.Lookup(vhEnc) == nil, "nothing written without a message")
	case 2:
		vos.Del(vhSec)
		vrt.Assert(Open(vhSec, vhEnc, vhOut) != nil, "missing secret key reported")
		vrt.Assert(len(vhFile(vhOut)) == 0, "nothing written without a key")
	case 3:
		vos.Del(vhEnc)
		vrt.Assert(Open(vhSec, vhEnc, vhOut) != nil, "missing file reported")
		vrt.Assert(len(vhFile(vhOut)) == 0, "nothing written")
	case 4:
		q := vrt.Bytes("tried", 0, 4)
		vhSetPrompt(q)
		vrt.Assert(Open(vhSec, vhEnc, vhOut) != nil, "wrong passphrase reported")
		vrt.Assert(len(vhFile(vhOut)) == 0, "nothing written")
	case 5:
		vhSetPrompt(nil)
		vrt.Assert(Open(vhSec, vhEnc, vhOut) != nil, "failing prompt reported")
		vrt.Assert(len(vhFile(vhOut)) == 0, "nothing written")
	}
	vrt.Reach("done")
}

// VH_C07_any: Open of arbitrary file content fails cleanly.
func VH_C07_any() {
	vhMake(nil)
	max := 6
	if vrt.Thorough() {
		max = 9
	}
	f := vrt.Bytes("file", 0, max)
	if vrt.Choose("comment", 2) == 1 {
		f = append([]byte(vhHead), f...)
	}
	vos.Put(vhEnc, f, 0644)
	err := Open(vhSec, vhEnc, vhOut)
	vrt.Assert(err != nil, "garbage is refused")
	vrt.Assert(len(vhFile(vhOut)) == 0, "nothing is released")
	vrt.Reach("done")
}

// VH_C07_raw: arbitrary sealed bytes.
func VH_C07_raw() {
	priv, _ := vhMake(nil)
	p := vrt.Bytes("sealed", 0, 300)
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(p), &out)
	vrt.Assert(err != nil, "garbage is refused")
	vrt.Assert(out.Len() == 0, "nothing is released")
	vrt.Reach("done")
}

// VH_C07_count: a genuine sender may announce any number of chunks; more than
// there are is an error, not a hang.
func VH_C07_count() {
	vhMake(nil)
	n := []int{0, 1, 40, vhChunk + 9}[vrt.Case(4)]
	m := vhText(n)
	have := (n + vhChunk - 1) / vhChunk
	c := vrt.Uint64("count")
	p := vhForge(m, c)
	priv, _ := vhLoad()
	var out bytes.Buffer
	err := open(priv, bytes.NewReader(p), &out)
	vrt.Assert(vrt.Implies(c > uint64(have), err != nil), "missing chunks reported")
	vrt.Assert(vrt.Implies(c == uint64(have), err == nil), "opening works")
	o := out.Bytes()
	vrt.Assert(len(o) <= n && vrt.EqBytes(o, m[:len(o)]), "only the message is released")
	if err == nil {
		vrt.Assert(vrt.Or(c < uint64(have), len(o) == n), "the message comes back")
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// VH_C07_nonl: a file without any line break is an error, not a hang.
func VH_C07_nonl() {
	vhMake(nil)
	f := vrt.Bytes("file", 0, 60)
	for _, c := range f {
		vrt.Assume(c != '\n')
	}
	vos.Put(vhEnc, f, 0644)
	err := Open(vhSec, vhEnc, vhOut)
	vrt.Assert(err != nil, "refused")
	vrt.Reach("done")
}

// VH_C05_size: a file whose size is not what it was said to be (a pipe, a file
// that grows or shrinks meanwhile) is sealed whole or not at all.
func VH_C05_size() {
	vhMake(nil)
	k := []int{0, 1, 17, 60}[vrt.Choose("len", 4)]
	m := vrt.Bytes("msg", k, k)
	n := vos.Put(vhMsg, m, 0644)
	if vrt.Choose("how", 2) == 0 {
		n.Pipe = true
	} else {
		n.Grown = vrt.Int("grown", -20, 60)
		vrt.Assume(n.Grown <= len(m))
	}
	if n.Pipe && vrt.Choose("short", 2) == 1 {
		// the message comes in pieces
		vos.Hook = func(kind, path string) {
			if kind == "open" && path == vhMsg {
				vos.SplitReads = 2
			}
		}
	}
	err := Seal(vhPub, vhMsg, "")
	vos.SplitReads = 0
	vos.Hook = nil
	if err == nil {
		vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the whole message comes back")
		vrt.Reach("sealed")
	} else {
		vrt.Assert(vrt.Or(n.Pipe && len(m) > 0, n.Grown != 0), "a message of the right size is sealed")
		vrt.Reach("refused")
	}
}

// VH_C05_pipe: an encrypted message that comes from a pipe opens.
func VH_C05_pipe() {
	vhMake(nil)
	m := vhText([]int{0, 20, vhChunk + 3}[vrt.Choose("len", 3)])
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
	vos.Lookup(vhEnc).Pipe = true
	vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
	vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the whole message comes back")
	vrt.Reach("done")
}
