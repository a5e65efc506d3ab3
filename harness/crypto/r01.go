package crypto

import (
	"bytes"
	"io"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

// vhOp is one operation with keys, files and a passphrase of its own.
type vhOp struct {
	kind int // 0 generate, 1 sign, 2 verify, 3 seal, 4 open
	dir  string
	pass []byte
	ask  []byte // the answer to prompts
	msg  []byte
	bad  bool // it has to be refused
	err  error
	sig  []byte
}

var (
	vhNow  *vhOp // whose prompts are answered
	vhCall func()
	// only every vhEvery-th read or write is an occasion
	vhEvery int
)

func vhConcurrent() {
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		p := append([]byte(nil), vhNow.ask...)
		if vhCall != nil {
			vhCall()
		}
		return p, nil
	}
	c := byte(0)
	vrand.Next = func(call int, p []byte) {
		for j := range p {
			c += 37
			p[j] = c ^ byte(j*11+call*101)
		}
		if vhCall != nil {
			vhCall()
		}
	}
	vos.Hook = func(kind, path string) {
		if (kind == "read" || kind == "write") && vhEvery > 1 && vos.Ops%vhEvery != 0 {
			return
		}
		if vhCall != nil {
			vhCall()
		}
	}
}

func (o *vhOp) file(s string) string { return o.dir + s }

func (o *vhOp) keys() error {
	return signify.GenerateKey(o.file("u"), o.pass, &signify.GenerateOptions{Rounds: 1})
}

// prepare makes what the operation needs.
func (o *vhOp) prepare() {
	vhNow = o
	vos.Put(o.file("m"), o.msg, 0644)
	o.ask = o.pass
	var err error
	if o.kind > 0 {
		err = o.keys()
	}
	switch o.kind {
	case 2:
		err = signify.Sign(o.file("u.sec"), o.file("m"), "")
		if o.bad {
			vos.Put(o.file("m"), append(vhClone(o.msg), 'x'), 0644)
		}
	case 4:
		err = Seal(o.file("u.pub"), o.file("m"), "")
	}
	if o.bad && (o.kind == 1 || o.kind == 4) {
		o.ask = []byte("mistaken")
	}
	vrt.Assert(err == nil, "preparations work")
}

func (o *vhOp) run() {
	old := vhNow
	vhNow = o
	switch o.kind {
	case 0:
		o.err = o.keys()
	case 1:
		o.err = signify.Sign(o.file("u.sec"), o.file("m"), "")
	case 2:
		o.err = signify.Verify(o.file("u.pub"), o.file("m"), "")
	case 3:
		o.err = Seal(o.file("u.pub"), o.file("m"), "")
	case 4:
		o.err = Open(o.file("u.sec"), o.file("m.enc"), o.file("out"))
	}
	vhNow = old
}

// check: the outcome is the one the operation has when it is alone.
func (o *vhOp) check(who string) {
	vhNow = o
	o.ask = o.pass
	if o.bad {
		vrt.Assert(o.err != nil, who+": refused")
		vrt.Assert(len(vhFile(o.file("out"))) == 0, who+": nothing released")
		return
	}
	vrt.Assert(o.err == nil, who+": works")
	switch o.kind {
	case 0:
		vrt.Assert(signify.Sign(o.file("u.sec"), o.file("m"), "") == nil, who+": the new key signs")
		vrt.Assert(signify.Verify(o.file("u.pub"), o.file("m"), "") == nil, who+": the new keys match")
	case 1:
		vrt.Assert(signify.Verify(o.file("u.pub"), o.file("m"), "") == nil, who+": the signature is valid")
	case 3:
		vrt.Assert(Open(o.file("u.sec"), o.file("m.enc"), o.file("out")) == nil, who+": the message opens")
		fallthrough
	case 4:
		vrt.Assert(vrt.EqBytes(vhFile(o.file("out")), o.msg), who+": the message comes back")
	}
	vrt.Assert(vos.Lookup(o.file("u.sec")) != nil, who+": secret key in place")
}

// VH_R01_nested: while one operation is inside any call of the operating
// system, the entropy source or the passphrase prompt, another one, with keys,
// files and a passphrase of its own, runs from start to end.
func VH_R01_nested() {
	vhConcurrent()
	k := vrt.Case(10)
	da, db := "/a/", "/b/"
	if k >= 5 {
		// the same directory
		k -= 5
		da, db = "/w/a", "/w/b"
	}
	max := 3
	if k >= 3 && !vrt.Thorough() {
		max = 1
		vhEvery = 3*k - 6
	}
	a := &vhOp{kind: k, dir: da, msg: vrt.Bytes("ma", 1, max), pass: []byte("first passphrase")}
	b := &vhOp{kind: vrt.Choose("other", 5), dir: db, msg: vrt.Bytes("mb", 1, 3), pass: []byte("second")}
	if b.kind == 1 || b.kind == 2 || b.kind == 4 {
		b.bad = vrt.Choose("refused", 2) == 1
	}
	a.prepare()
	b.prepare()
	vos.OpenHandles = 0
	when := vrt.Int("when", 0, 400)
	i := 0
	started := false
	vhCall = func() {
		if started {
			return
		}
		if i == when {
			started = true
			b.run()
		}
		i++
	}
	a.run()
	vhCall = nil
	if !started {
		vrt.Stop()
	}
	a.check("outer")
	b.check("inner")
	vrt.Assert(vos.OpenHandles == 0, "no file left open for writing")
	vrt.Reach("nested")
}

// VH_R01_shared: an operation writes to nothing that others can reach: no
// package-level variable and no key object it is given.
func VH_R01_shared() {
	vhConcurrent()
	k := vrt.Case(7)
	o := &vhOp{kind: k, dir: "/a/", msg: vrt.Bytes("m", 0, 3), pass: []byte("first passphrase")}
	if k == 1 || k == 2 || k == 4 {
		o.bad = vrt.Choose("refused", 2) == 1
	}
	if k >= 5 {
		o.pass = nil
		o.kind = 1
	}
	o.prepare()
	if k >= 5 {
		priv, err1 := signify.LoadPrivateKey("/a/u.sec")
		pub, err2 := signify.LoadPublicKey("/a/u.pub")
		vrt.Assert(err1 == nil && err2 == nil, "keys load")
		if k == 5 {
			vrt.Guard("public key", pub)
			pub.ToBox()
		} else {
			vrt.Guard("unlocked secret key", priv)
			priv.IsEncrypted()
			priv.Check()
			priv.ToBox()
		}
		vrt.Unguard()
		vrt.Reach("unshared")
		return
	}
	fail := vrt.Int("fail", -1, 60)
	vos.FailOp = -1
	if fail >= 0 {
		vos.FailOp = vos.Ops + fail
	}
	vrt.Guard("package variables")
	o.run()
	vrt.Unguard()
	vos.FailOp = -1
	vrt.Reach("unshared")
}

// vhMeet is a source or destination whose calls are occasions.
type vhMeet struct {
	r    io.Reader
	w    io.Writer
	call func()
}

func (m *vhMeet) Read(p []byte) (int, error) {
	m.call()
	if len(p) > 1 {
		// what was read so far must survive the next call
		p = p[:(len(p)+1)/2]
	}
	return m.r.Read(p)
}

func (m *vhMeet) Write(p []byte) (int, error) {
	before := append([]byte(nil), p...)
	m.call()
	vrt.Assert(vrt.EqBytes(before, p), "bytes being written do not change")
	return m.w.Write(p)
}

// VH_R01_chunks: messages of two chunks are sealed and opened at the same
// time; one runs inside any read or write of the other.
func VH_R01_chunks() {
	vhConcurrent()
	n := vhChunk + 9
	m, q := vrt.Bytes("ma", n, n), vhText(n+4)
	vhNow = &vhOp{}
	priv, pub := vhMake(nil)
	sealed := func(m []byte) []byte {
		var b bytes.Buffer
		vrt.Assert(seal(pub, bytes.NewReader(m), len(m), &b) == nil, "sealing works")
		return b.Bytes()
	}
	sa, sb := sealed(m), sealed(q)
	var outer, inner bytes.Buffer
	var err1, err2 error
	opens := vrt.Choose("inner", 2) == 1
	when := vrt.Int("when", 0, 80)
	i := 0
	started := false
	call := func() {
		if started {
			return
		}
		if i == when {
			started = true
			if opens {
				err2 = open(priv, bytes.NewReader(sb), &inner)
			} else {
				err2 = seal(pub, bytes.NewReader(q), len(q), &inner)
			}
		}
		i++
	}
	if vrt.Case(2) == 0 {
		err1 = seal(pub, &vhMeet{r: bytes.NewReader(m), call: call}, n, &vhMeet{w: &outer, call: call})
	} else {
		err1 = open(priv, &vhMeet{r: bytes.NewReader(sa), call: call}, &vhMeet{w: &outer, call: call})
	}
	if !started {
		vrt.Stop()
	}
	vrt.Assert(err1 == nil && err2 == nil, "both work")
	whole := func(opened bool, b *bytes.Buffer, m []byte, who string) {
		if !opened {
			c := *b
			b = new(bytes.Buffer)
			vrt.Assert(open(priv, bytes.NewReader(c.Bytes()), b) == nil, who+": opens")
		}
		vrt.Assert(vrt.EqBytes(b.Bytes(), m), who+": the message comes back")
	}
	whole(vrt.Case(2) == 1, &outer, m, "outer")
	whole(opens, &inner, q, "inner")
	vrt.Reach("nested")
}
