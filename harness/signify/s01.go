package signify

import (
	"strings"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"golang.org/x/crypto/ed25519"
)

func vhRange(q, t [][2]int) (int, int) {
	x := q
	if vrt.Thorough() {
		x = t
	}
	r := x[vrt.Case(len(x))]
	return r[0], r[1]
}

// VH_S01_sign: any message signed with a key verifies with its public half,
// and the signature file carries exactly the Ed25519 signature of the message.
func VH_S01_sign() {
	lo, hi := vhRange([][2]int{{0, 40}, {510, 514}, {4095, 4097}, {65535, 65537}, {1<<20 - 1, 1 << 20}}, [][2]int{{0, 80}, {500, 530}, {1020, 1030}, {4090, 4100}, {65534, 65538}, {1<<20 - 2, 1<<20 + 2}, {1<<24 - 1, 1<<24 + 1}})
	msg := vrt.Bytes("msg", lo, hi)
	pass := vhPass(vrt.Choose("pass", 2))
	out := []string{"", vhOut}[vrt.Choose("out", 2)]
	vhMake(pass)
	vos.Put(vhMsg, msg, 0644)
	err := Sign(vhSec, vhMsg, out)
	vrt.Assert(err == nil, "signing works")
	if err != nil {
		return
	}
	err = Verify(vhPub, vhMsg, out)
	vrt.Assert(err == nil, "own signature verifies")
	if out == "" {
		out = vhSig
	}
	p := vhPayload(out)
	pub := vhPayload(vhPub)
	vrt.Assert(len(p) == 74, "signature payload has 74 bytes")
	if len(p) != 74 {
		return
	}
	vrt.Assert(vrt.EqBytes(p[:10], pub[:10]), "signature carries algorithm and key number")
	vrt.Assert(ed25519.Verify(ed25519.PublicKey(pub[10:]), msg, p[10:]), "payload is the Ed25519 signature of the message")
	vrt.Reach("signed")
}

// VH_S01_long: very long messages, all of them zero but for any one byte.
func VH_S01_long() {
	n := []int{1<<24 + 3, 1<<28 + 1, 1<<30 + 5}[vrt.Case(3)]
	at := vrt.Int("at", 0, 1<<31)
	vrt.Assume(at < n)
	m := make([]byte, n)
	m[at] = vrt.Byte("byte")
	vhMake(nil)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signing works")
	vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "own signature verifies")
	p, pub := vhPayload(vhSig), vhPayload(vhPub)
	vrt.Assert(len(p) == 74, "signature payload has 74 bytes")
	if len(p) == 74 {
		vrt.Assert(ed25519.Verify(ed25519.PublicKey(pub[10:]), m, p[10:]), "payload is the Ed25519 signature of the message")
	}
	vrt.Reach("signed")
}

// VH_S01_entropy: the same for every key the entropy source can produce.
func VH_S01_entropy() {
	msg := []byte("attack at dawn")
	pass := vhPass(vrt.Choose("pass", 2))
	vrand.Next = func(call int, p []byte) {
		copy(p, vrt.Bytes("entropy", len(p), len(p)))
	}
	vhMake(pass)
	vrand.Next = nil
	vos.Put(vhMsg, msg, 0644)
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert(err == nil, "signing works")
	err = Verify(vhPub, vhMsg, "")
	vrt.Assert(err == nil, "own signature verifies")
	vrt.Reach("signed")
}

// VH_S01_names: the same whatever the key file is called.
func VH_S01_names() {
	n := vrt.Bytes("name", 1, 4)
	ok := true
	for _, c := range n {
		ok = vrt.And(ok, vrt.And(c != 0, c != '/'))
	}
	vrt.Assume(ok)
	base := "/w/k" + string(n)
	vhSetPrompt(nil)
	err := GenerateKey(base, nil, nil)
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, []byte("hi"), 0644)
	err = Sign(base+".sec", vhMsg, "")
	if err != nil {
		// a name that cannot go into the comment line may be refused
		vrt.Assert(strings.Contains(string(n), "\n"), "signing works with any ordinary key name")
		return
	}
	err = Verify(base+".pub", vhMsg, "")
	vrt.Assert(err == nil, "own signature verifies")
	vrt.Reach("signed")
}

// VH_S01_rounds: any number of key-derivation rounds.
func VH_S01_rounds() {
	pass := []byte("pw")
	var opts *GenerateOptions
	switch vrt.Choose("opts", 2) {
	case 1:
		r := vrt.Int("rounds", 1, 1<<31-1)
		opts = &GenerateOptions{Rounds: r}
	}
	vhSetPrompt(pass)
	err := GenerateKey(vhKey, pass, opts)
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, []byte("hi"), 0644)
	err = Sign(vhSec, vhMsg, "")
	vrt.Assert(err == nil, "signing works")
	err = Verify(vhPub, vhMsg, "")
	vrt.Assert(err == nil, "own signature verifies")
	vrt.Reach("signed")
}

// VH_S01_history: a sequence of operations with two keys and two messages;
// every signature ever made verifies for its own key and message only.
func VH_S01_history() {
	pass := [][]byte{vhPass(vrt.Choose("passa", 2)), vhPass(vrt.Choose("passb", 2))}
	keys := []string{"/w/a", "/w/b"}
	for i, k := range keys {
		vhSetPrompt(nil)
		vrt.Assert(GenerateKey(k, pass[i], &GenerateOptions{Rounds: 1}) == nil, "key generation works")
	}
	m := [][]byte{vrt.Bytes("m0", 0, 12), vrt.Bytes("m1", 0, 12)}
	vos.Put("/w/m0", m[0], 0644)
	vos.Put("/w/m1", m[1], 0644)
	msgs := []string{"/w/m0", "/w/m1"}
	steps := 2
	if vrt.Thorough() {
		steps = 3
	}
	var ks, ms []int
	for i := 0; i < steps; i++ {
		k, j := vrt.Choose("key", 2), vrt.Choose("msg", 2)
		if len(pass[k]) == 0 {
			vhSetPrompt(nil)
		} else {
			vhSetPrompt(pass[k])
		}
		out := "/w/sig" + string(rune('0'+i))
		vrt.Assert(Sign(keys[k]+".sec", msgs[j], out) == nil, "signing works")
		ks, ms = append(ks, k), append(ms, j)
	}
	vhSetPrompt(nil)
	same := vrt.EqBytes(m[0], m[1])
	for i := 0; i < steps; i++ {
		out := "/w/sig" + string(rune('0'+i))
		for k := 0; k < 2; k++ {
			for j := 0; j < 2; j++ {
				err := Verify(keys[k]+".pub", msgs[j], out)
				want := vrt.And(k == ks[i], vrt.Or(j == ms[i], same))
				vrt.Assert((err == nil) == want, "each signature verifies for its own key and message only")
			}
		}
	}
	vrt.Reach("done")
}

// VH_S01_renew: keys, messages and signatures replaced by new ones of the same
// name, in one process.
func VH_S01_renew() {
	vos.Put(vhMsg, []byte("one"), 0644)
	for i := 0; i < 3; i++ {
		what := 3
		if i > 0 {
			what = vrt.Choose("what", 3)
		}
		if what == 1 || what == 2 {
			vos.Put(vhMsg, vrt.Bytes("msg", 0, 8), 0644)
		}
		if what != 1 {
			var pass []byte
			if vrt.Choose("pass", 2) == 1 {
				pass = []byte("pass " + string(rune('0'+i)))
			}
			vrt.Assert(vos.Lookup(vhSec) == nil || vos.Remove(vhSec) == nil, "the old key goes away")
			vrt.Assert(vos.Lookup(vhPub) == nil || vos.Remove(vhPub) == nil, "the old key goes away")
			vhMake(pass)
		}
		vrt.Assert(Sign(vhSec, vhMsg, "") == nil, "signing works")
		vrt.Assert(Verify(vhPub, vhMsg, "") == nil, "own signature verifies")
		pub, sig := vhPayload(vhPub), vhPayload(vhSig)
		vrt.Assert(len(sig) == 74 && vrt.EqBytes(sig[:10], pub[:10]), "signed with the key of that name")
		priv, err := LoadPrivateKey(vhSec)
		vrt.Assert(err == nil, "key loads")
		b, err := priv.ToBox()
		vrt.Assert(err == nil && b != nil, "key converts")
		if i > 0 {
			vrt.Reach("again")
		}
	}
	vrt.Reach("done")
}

// VH_S01_longnames: long names of keys, as far as file systems allow, and
// longer ones.
func VH_S01_longnames() {
	n := []int{60, 100, 101, 128, 200, 224, 225, 250, 251, 255, 256, 1000, 1024, 4000, 4096}[vrt.Choose("len", 15)]
	name := make([]byte, n)
	c := vrt.Byte("char")
	vrt.Assume(vrt.And(c > ' ', vrt.And(c < 127, vrt.And(c != '/', c != '.'))))
	for i := range name {
		name[i] = c
	}
	base := "/w/" + string(name)
	vhSetPrompt(nil)
	vrt.Assert(GenerateKey(base, nil, nil) == nil, "key generation works")
	vos.Put(vhMsg, []byte("hi"), 0644)
	vrt.Assert(Sign(base+".sec", vhMsg, "") == nil, "signing works")
	vrt.Assert(Verify(base+".pub", vhMsg, "") == nil, "own signature verifies")
	com, _ := vhSplit(vhFile(vhSig))
	vrt.Assert(vrt.EqStr(string(com), vhHead+"verify with "+string(name)+".pub"), "comment line")
	vrt.Reach("signed")
}

// VH_S01_many: many signatures by one process.
func VH_S01_many() {
	n := 130
	if vrt.Thorough() {
		n = 1100
	}
	for i, k := range []string{"/w/a", "/w/b"} {
		vhSetPrompt(vhPass(1))
		vrt.Assert(GenerateKey(k, vhPass(i), &GenerateOptions{Rounds: 1}) == nil, "key generation works")
	}
	for i := 0; i < n; i++ {
		k, other := "/w/a", "/w/b"
		if i%7 == 5 {
			k, other = other, k
		}
		vos.Put(vhMsg, []byte{byte(i), byte(i >> 8)}, 0644)
		vhSetPrompt(vhPass(1))
		vrt.Assert(Sign(k+".sec", vhMsg, "") == nil, "signing works")
		vrt.Assert(Verify(k+".pub", vhMsg, "") == nil, "own signature verifies")
		vrt.Assert(Verify(other+".pub", vhMsg, "") != nil, "for no other key")
	}
	m := vrt.Bytes("msg", 0, 9)
	vos.Put(vhMsg, m, 0644)
	vrt.Assert((Verify("/w/a.pub", vhMsg, "") == nil) == vrt.EqBytes(m, []byte{byte(n - 1), byte((n - 1) >> 8)}), "for no other message")
	vrt.Assert(Sign("/w/a.sec", vhMsg, "") == nil, "signing works")
	vrt.Assert(Verify("/w/a.pub", vhMsg, "") == nil, "own signature verifies")
	vrt.Reach("done")
}
