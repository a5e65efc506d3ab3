package signify

import (
	"github.com/kisom/psignify/internal/vfe"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_E01_search looks for a key that converts wrongly; it is run natively when
// a field operation has been refuted.
func VH_E01_search() {
	vhSigned(nil, []byte("m"))
	p := vhPayload(vhPub)
	x := uint64(vrt.Int("seed", 0, 1000))*0x9E3779B97F4A7C15 + 1
	k := make([]byte, 32)
	for n := 0; n < 20000; n++ {
		for i := range k {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			k[i] = byte(x >> 32)
		}
		pub, err := readPublicKeyData(append(vhClone(p[:10]), k...))
		if err != nil {
			return
		}
		box, err := pub.ToBox()
		if err != nil || box == nil {
			vfe.CheckPoint("public key converts exactly if it is a point, to (1+y)/(1-y)", k, false, nil)
		} else {
			vfe.CheckPoint("public key converts exactly if it is a point, to (1+y)/(1-y)", k, true, box[:])
		}
	}
}
