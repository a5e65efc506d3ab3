package edwards25519

import (
	"github.com/kisom/psignify/internal/vfe"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_E03_add: sums, differences and negatives are exact.
func VH_E03_add() {
	f := vhFe("f", vhOutEven, vhOutOdd)
	g := vhFe("g", vhOutEven, vhOutOdd)
	f0, g0 := f, g
	var h FieldElement
	kind := "add"
	switch vrt.Case(6) {
	case 0:
		FeAdd(&h, &f, &g)
	case 1:
		FeAdd(&f, &f, &g)
		h, f = f, f0
	case 2:
		kind = "sub"
		FeSub(&h, &f, &g)
	case 3:
		kind = "sub"
		FeSub(&g, &f, &g)
		h, g = g, g0
	case 4:
		kind = "neg"
		FeNeg(&h, &f)
	case 5:
		kind = "neg"
		FeNeg(&f, &f)
		h, f = f, f0
	}
	vrt.Assert(f == f0 && g == g0, "E03: operands are unchanged")
	vfe.CheckOp("E03: "+kind+" is exact", kind, h[:], f[:], g[:], vhInEven, vhInOdd)
	vrt.Reach("done")
}
