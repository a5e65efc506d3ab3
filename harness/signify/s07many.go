package signify

import (
	"github.com/kisom/psignify/internal/vrt"
)

// VH_S07_many: the same after many attempts.
func VH_S07_many() {
	p := vhPass(1)
	n := 40
	if vrt.Thorough() {
		n = 600
	}
	vhMake(p)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	ref, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	vhSetPrompt(p)
	want, err := ref.ToBox()
	vrt.Assert(err == nil, "unlocks")
	for i := 0; i < n; i++ {
		if i%5 == 4 {
			vhSetPrompt(nil)
		} else {
			vhSetPrompt([]byte{'x', byte(i), byte(i >> 8)})
		}
		b, err := priv.ToBox()
		vrt.Assert(err != nil && b == nil, "wrong passphrase refused")
	}
	q := vrt.Bytes("tried", 12, 14)
	vhSetPrompt(q)
	_, err = priv.ToBox()
	vrt.Assert((err == nil) == vrt.EqBytes(p, q), "unlocks exactly with the right passphrase")
	if err == nil {
		vrt.Reach("right")
		vhSetPrompt(nil)
	} else {
		vrt.Reach("wrong")
		vhSetPrompt(p)
	}
	got, err := priv.ToBox()
	vrt.Assert(err == nil, "the right passphrase works after many wrong ones")
	if err == nil && want != nil {
		vrt.Assert(vrt.EqBytes(got[:], want[:]), "and gives the right key")
	}
	// and stays unlocked
	vhSetPrompt(nil)
	for i := 0; i < 8*n; i++ {
		got, err = priv.ToBox()
		vrt.Assert(err == nil && vhPrompts == 0, "once unlocked it stays unlocked")
	}
	vrt.Assert(err == nil && vrt.EqBytes(got[:], want[:]), "and gives the right key")
}
