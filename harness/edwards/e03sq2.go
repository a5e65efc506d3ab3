package edwards25519

import (
	"github.com/kisom/psignify/internal/vfe"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_E03_square2: doubled squares are exact.
func VH_E03_square2() {
	f := vhFe("f", vhInEven, vhInOdd)
	f0 := f
	var h FieldElement
	FeSquare2(&h, &f)
	vfe.CheckOp("E03: doubled square is exact", "square2", h[:], f0[:], nil, vhOutEven, vhOutOdd)
	vrt.Reach("done")
}
