package crypto

import "github.com/kisom/psignify/internal/vrt"

// VH_C03_nonce: the chunk counter steps through all 192-bit values in order
// and refuses to wrap around.
func VH_C03_nonce() {
	var n [24]byte
	b := vrt.Bytes("nonce", 24, 24)
	copy(n[:], b)
	old := n
	err := incrementNonce(&n)
	all := true
	for _, c := range old {
		all = vrt.And(all, c == 255)
	}
	vrt.Assert((err != nil) == all, "wrap-around reported")
	if err == nil {
		carry := true
		for i := 23; i >= 0; i-- {
			want := vrt.IteByte(carry, old[i]+1, old[i])
			vrt.Assert(n[i] == want, "successor")
			carry = vrt.And(carry, old[i] == 255)
		}
		vrt.Reach("stepped")
	} else {
		vrt.Reach("wrapped")
	}
}
