package signify

import (
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/internal/vterm"
)

// VH_S11_long: long answers that differ in one place or in their length.
func VH_S11_long() {
	n := []int{73, 300, 1025, 4095}[vrt.Case(4)]
	p := make([]byte, n)
	q := make([]byte, n+1)
	at := vrt.Int("at", 0, 1<<13)
	vrt.Assume(at < n)
	d := vrt.Byte("delta")
	k := []int{n, n - 1, n + 1, n / 2, 72, 64, 55, 0}[vrt.Choose("len", 8)]
	q[at] ^= d
	confirm := vrt.Choose("confirm", 2) == 1
	vterm.Answers = [][]byte{p, q[:k]}
	got, err := PassphrasePrompt(confirm)
	if !confirm {
		vrt.Assert(err == nil && vrt.EqBytes(got, p), "the answer is returned")
		vrt.Reach("once")
		return
	}
	vrt.Assert((err == nil) == vrt.And(k == n, d == 0), "accepted exactly when both answers agree")
	if err == nil {
		vrt.Assert(vrt.EqBytes(got, p), "the answer is returned")
		vrt.Reach("agree")
	} else {
		vrt.Assert(len(got) == 0, "no passphrase on failure")
		vrt.Reach("differ")
	}
}
