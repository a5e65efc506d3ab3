package edwards25519

import (
	"github.com/kisom/psignify/internal/vrt"
)

// VH_E03_constants: zero, one, copies and constants.
func VH_E03_constants() {
	f := vhFe("f", vhInEven, vhInOdd)
	g := f
	FeZero(&f)
	vrt.Assert(f == FieldElement{}, "E03: zero")
	FeOne(&f)
	vrt.Assert(f == FieldElement{1}, "E03: one")
	FeCopy(&f, &g)
	vrt.Assert(f == g, "E03: copies are equal")
	vrt.Reach("done")
}
