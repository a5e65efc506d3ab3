package signify

import (
	"github.com/kisom/psignify/internal/vfe"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_E01_point: a public key file with any 32 key bytes converts exactly if
// they encode a point of the curve, to (1+y)/(1-y).
func VH_E01_point() {
	vhSigned(nil, []byte("m"))
	p := vhPayload(vhPub)
	k := vrt.Bytes("key", 32, 32)
	vhPut(vhPub, append(vhClone(p[:10]), k...))
	pub, err := LoadPublicKey(vhPub)
	vrt.Assert(err == nil, "key loads")
	if err != nil {
		return
	}
	vfe.Cut()
	box, err := pub.ToBox()
	if err != nil || box == nil {
		vrt.Assert(err != nil && box == nil, "a refused key gives no encryption key")
		vfe.CheckPoint("public key converts exactly if it is a point, to (1+y)/(1-y)", k, false, nil)
		vrt.Reach("refused")
		return
	}
	vfe.CheckPoint("public key converts exactly if it is a point, to (1+y)/(1-y)", k, true, box[:])
	vrt.Reach("converted")
}
