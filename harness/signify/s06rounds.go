package signify

import (
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_S06_rounds: a protected key is not used with another round count than
// the one it was made with.
func VH_S06_rounds() {
	lim := 300
	if vrt.Thorough() {
		lim = 1000
	}
	r := vrt.Int("rounds", 1, 1<<20)
	s := vrt.Int("stored", 1, 1<<32-1)
	switch vrt.Case(2) {
	case 0:
		vrt.Assume(r <= lim)
		vrt.Assume(s <= lim)
	case 1:
		// any difference of the upper bytes
		vrt.Assume(r <= 3)
		vrt.Assume(s > 255)
		vrt.NoSample() // many rounds
	}
	pass := vhPass(1)
	vhSetPrompt(pass)
	vrt.Assert(GenerateKey(vhKey, pass, &GenerateOptions{Rounds: r}) == nil, "key generation works")
	vos.Put(vhMsg, []byte("m"), 0644)
	p := vhPayload(vhSec)
	for i := 0; i < 4; i++ {
		p[4+i] = byte(s >> uint(24-8*i))
	}
	vhPut(vhSec, p)
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert((err == nil) == (r == s), "signs exactly with the intact key")
	vrt.Assert((vos.Lookup(vhSig) != nil) == (r == s), "signature file exactly with the intact key")
	vrt.Reach("done")
}
