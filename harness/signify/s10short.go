package signify

import (
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_S10_short: the same when the entropy source delivers its bytes in pieces.
func VH_S10_short() {
	pass := vhPass(vrt.Choose("pass", 2))
	vhSetPrompt(pass)
	pos := 0
	vrand.Next = func(call int, p []byte) {
		for i := range p {
			p[i] = byte(pos*7 + 1)
			pos++
		}
	}
	n := vrt.Choose("pieces", 2) * 3
	vrand.Short = func(call, want int) int {
		if n == 0 {
			return 1
		}
		if call >= n {
			return 0
		}
		return []int{1, want / 2, want - 1, want}[vrt.Choose("piece", 4)]
	}
	if GenerateKey(vhKey, pass, &GenerateOptions{Rounds: 1}) != nil {
		// refusing such a source is no harm
		vrt.Reach("refused")
		return
	}
	var all []byte
	for _, g := range vrand.Given {
		all = append(all, g...)
	}
	where := func(f []byte) int {
		for i := 0; i+len(f) <= len(all); i++ {
			if vrt.EqBytes(all[i:i+len(f)], f) {
				return i
			}
		}
		return -1
	}
	s := vhPayload(vhSec)
	vrt.Assert(len(s) == 104, "layout")
	salt, num := where(s[8:24]), where(s[32:40])
	vrt.Assert(salt >= 0, "the salt is entropy")
	vrt.Assert(num >= 0, "the key number is entropy")
	vrt.Assert(num+8 <= salt || salt+16 <= num, "taken from different places")
	if pass == nil {
		seed := where(s[40:72])
		vrt.Assert(seed >= 0, "the seed is entropy")
		vrt.Assert((seed+32 <= salt || salt+16 <= seed) && (seed+32 <= num || num+8 <= seed), "taken from different places")
	}
	vrt.Reach("done")
}
