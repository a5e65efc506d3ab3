package edwards25519

import (
	"github.com/kisom/psignify/internal/vfe"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_E03_pow: the square root power is (p-5)/8.
func VH_E03_pow() {
	f := vhFe("f", vhInEven, vhInOdd)
	f0 := f
	var h FieldElement
	vfe.Cut()
	if vrt.Case(2) == 1 {
		fePow22523(&f, &f)
		h = f
	} else {
		fePow22523(&h, &f)
	}
	vfe.CheckPow("E03: power for square roots is exact", "7237005577332262213973186563042994240829374041602535252466099000494570602493", h[:], f0[:])
	vrt.Reach("done")
}
