package crypto

import (
	"bytes"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
)

// VH_C01_file: what Seal writes for a public key, Open turns back into the
// message, for the private key.
func VH_C01_file() {
	lo, hi := vhRange([][2]int{{0, 40}, {41, 120}}, [][2]int{{0, 60}, {60, 130}, {130, 260}})
	m := vrt.Bytes("msg", lo, hi)
	pass := vhPass(vrt.Choose("pass", 2))
	enc := []string{"", vhEnc, "/w/other"}[vrt.Choose("out", 3)]
	vhMake(pass)
	vos.Put(vhMsg, m, 0644)
	err := Seal(vhPub, vhMsg, enc)
	vrt.Assert(err == nil, "sealing works")
	if enc == "" {
		enc = vhEnc
	}
	err = Open(vhSec, enc, vhOut)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
	vrt.Assert(vrt.EqBytes(vhFile(vhMsg), m), "the message file is untouched")
	vrt.Assert(vos.OpenHandles == 0, "no file left open for writing")
	vrt.Reach("opened")
}

// VH_C01_entropy: the same for all ephemeral keys.
func VH_C01_entropy() {
	m := vrt.Bytes("msg", 1, 9)
	vhMake(vhPass(vrt.Choose("pass", 2)))
	vrand.Next = func(call int, p []byte) { copy(p, vrt.Bytes("entropy", len(p), len(p))) }
	vos.Put(vhMsg, m, 0644)
	err := Seal(vhPub, vhMsg, "")
	vrt.Assert(err == nil, "sealing works")
	err = Open(vhSec, vhEnc, vhOut)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
	vrt.Reach("opened")
}

// VH_C01_chunks: chunk boundaries, symbolic content.
func VH_C01_chunks() {
	lo, hi := vhRange([][2]int{{vhChunk - 1, vhChunk + 1}, {2*vhChunk - 1, 2*vhChunk + 1}, {3 * vhChunk, 3*vhChunk + 1}},
		[][2]int{{vhChunk - 20, vhChunk + 20}, {2*vhChunk - 3, 2*vhChunk + 3}, {3*vhChunk - 1, 3*vhChunk + 1}, {5*vhChunk - 1, 5*vhChunk + 1}})
	m := vrt.Bytes("msg", lo, hi)
	priv, pub := vhMake(nil)
	var enc, out bytes.Buffer
	err := seal(pub, bytes.NewReader(m), len(m), &enc)
	vrt.Assert(err == nil, "sealing works")
	n := (len(m) + vhChunk - 1) / vhChunk
	vrt.Assert(enc.Len() == vhHdr+len(m)+vhOver*n, "size of the sealed message")
	err = open(priv, bytes.NewReader(enc.Bytes()), &out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(out.Bytes(), m), "the message comes back")
	vrt.Reach("opened")
}

// VH_C01_big: whole files around the chunk boundaries, through base64.
func VH_C01_big() {
	n := []int{vhChunk - 1, vhChunk, vhChunk + 1, 2 * vhChunk, 2*vhChunk + 1, 8192, 4096, 65536}[vrt.Case(8)]
	m := vhText(n)
	vhMake(nil)
	vos.Put(vhMsg, m, 0644)
	err := Seal(vhPub, vhMsg, "")
	vrt.Assert(err == nil, "sealing works")
	err = Open(vhSec, vhEnc, vhOut)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
	vrt.Reach("opened")
}

// VH_C01_history: several messages for several recipients, opened in any
// order into files that may already exist.
func VH_C01_history() {
	vhMake(vhPass(vrt.Choose("passa", 2)))
	pa, sa := vhFile(vhPub), vhFile(vhSec)
	pass := vhPass(1)
	vhSetPrompt(pass)
	vos.Put("/w/a.pub", pa, 0644)
	vos.Put("/w/a.sec", sa, 0600)
	vhMake(nil)
	vos.Put("/w/b.pub", vhFile(vhPub), 0644)
	vos.Put("/w/b.sec", vhFile(vhSec), 0600)
	vhSetPrompt(pass)
	opens := 1
	if vrt.Thorough() {
		opens = 2
	}
	m := [][]byte{vrt.Bytes("m0", 0, 2), vrt.Bytes("m1", 2, 4)}
	to := []int{vrt.Choose("to", 2), vrt.Choose("to", 2)}
	names := []string{"/w/a", "/w/b"}
	for i := range m {
		f := "/w/m" + string(rune('0'+i))
		vos.Put(f, m[i], 0644)
		vrt.Assert(Seal(names[to[i]]+".pub", f, "") == nil, "sealing works")
	}
	vos.Put(vhOut, []byte("an older and much longer file that was there before"), 0644)
	for k := 0; k < opens; k++ {
		i := vrt.Choose("open", 2)
		who := vrt.Choose("who", 2)
		err := Open(names[who]+".sec", "/w/m"+string(rune('0'+i))+".enc", vhOut)
		vrt.Assert((err == nil) == (who == to[i]), "only the recipient opens it")
		if err == nil {
			vrt.Assert(vrt.EqBytes(vhFile(vhOut), m[i]), "the message comes back")
		} else {
			vrt.Assert(len(vhFile(vhOut)) == 0 || vhFile(vhOut)[0] == 'a' && len(vhFile(vhOut)) > 40, "nothing is revealed to others")
		}
	}
	vrt.Reach("done")
}

// VH_C01_renew: keys and messages replaced by new ones of the same name, in
// one process.
func VH_C01_renew() {
	vos.Put(vhMsg, []byte("one"), 0644)
	for i := 0; i < 3; i++ {
		what := 3
		if i > 0 {
			what = vrt.Choose("what", 3)
		}
		if what == 1 || what == 2 {
			vos.Put(vhMsg, vrt.Bytes("msg", 3, 3), 0644)
		}
		if what != 1 {
			var pass []byte
			if vrt.Choose("pass", 2) == 1 {
				pass = []byte("pass " + string(rune('0'+i)))
			}
			vrt.Assert(vos.Lookup(vhSec) == nil || vos.Remove(vhSec) == nil, "the old key goes away")
			vrt.Assert(vos.Lookup(vhPub) == nil || vos.Remove(vhPub) == nil, "the old key goes away")
			vhMake(pass)
		}
		vrt.Assert(Seal(vhPub, vhMsg, "") == nil, "sealing works")
		vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
		vrt.Assert(vrt.EqBytes(vhFile(vhOut), vhFile(vhMsg)), "the message comes back")
	}
	vrt.Reach("done")
}

// VH_C01_many: many messages to a few recipients in one process; every one
// has its own ephemeral key and opens.
func VH_C01_many() {
	n := 130
	if vrt.Thorough() {
		n = 1100
	}
	var privs []*signify.Private
	var pubs []*signify.Public
	for i := 0; i < 3; i++ {
		a, b := vhMake(nil)
		privs, pubs = append(privs, a), append(pubs, b)
	}
	pos := 0
	vrand.Next = func(call int, p []byte) {
		// never the same twice
		for i := range p {
			p[i] = byte(pos >> uint(8*(i%3)))
		}
		pos++
	}
	var seen [][]byte
	for i := 0; i < n; i++ {
		k := i * 7 / 5 % 3
		m := vhText(i % 90)
		p := vhSealed(pubs[k], m)
		seen = append(seen, vhClone(p[8:40]))
		var out bytes.Buffer
		err := open(privs[k], bytes.NewReader(p), &out)
		vrt.Assert(err == nil, "opening works")
		vrt.Assert(vrt.EqBytes(out.Bytes(), m), "the message comes back")
	}
	for i := range seen {
		for j := 0; j < i; j++ {
			vrt.Assert(!vrt.EqBytes(seen[i], seen[j]), "a fresh ephemeral key for every message")
		}
	}
	m := vrt.Bytes("msg", 0, 9)
	p := vhSealed(pubs[1], m)
	var out bytes.Buffer
	err := open(privs[1], bytes.NewReader(p), &out)
	vrt.Assert(err == nil, "opening works")
	vrt.Assert(vrt.EqBytes(out.Bytes(), m), "the message comes back")
	vrt.Reach("done")
}
