package edwards25519

import (
	"github.com/kisom/psignify/internal/vfe"
	"github.com/kisom/psignify/internal/vrt"
)

// The bounds the functions are documented for and used with.
const (
	vhInEven  = 73819750  // 1.1 * 2^26
	vhInOdd   = 36909875  // 1.1 * 2^25
	vhToEven  = 100663296 // 1.5 * 2^26
	vhToOdd   = 50331648
	vhOutEven = 36909875
	vhOutOdd  = 18454937 // 1.1 * 2^24
)

func vhFe(name string, even, odd int64) FieldElement {
	var f FieldElement
	vfe.Limbs(name, f[:], even, odd)
	return f
}

// VH_E03_mul: products are exact for all operands within the bounds, also in
// place, and the operands stay as they are.
func VH_E03_mul() {
	f := vhFe("f", vhInEven, vhInOdd)
	g := vhFe("g", vhInEven, vhInOdd)
	f0, g0 := f, g
	var h FieldElement
	switch vrt.Case(3) {
	case 0:
		FeMul(&h, &f, &g)
		vrt.Assert(f == f0 && g == g0, "E03: operands of a product are unchanged")
	case 1:
		FeMul(&f, &f, &g)
		h = f
		vrt.Assert(g == g0, "E03: operands of a product are unchanged")
	case 2:
		FeMul(&g, &f, &g)
		h = g
		vrt.Assert(f == f0, "E03: operands of a product are unchanged")
	}
	vfe.CheckOp("E03: product is exact", "mul", h[:], f0[:], g0[:], vhOutEven, vhOutOdd)
	vrt.Reach("done")
}

// VH_E03_square: squares are exact.
func VH_E03_square() {
	f := vhFe("f", vhInEven, vhInOdd)
	f0 := f
	var h FieldElement
	switch vrt.Case(2) {
	case 0:
		FeSquare(&h, &f)
		vrt.Assert(f == f0, "E03: operand of a square is unchanged")
	case 1:
		FeSquare(&f, &f)
		h = f
	}
	vfe.CheckOp("E03: square is exact", "square", h[:], f0[:], nil, vhOutEven, vhOutOdd)
	vrt.Reach("done")
}

// VH_E03_from: decoding gives the residue of the low 255 bits.
func VH_E03_from() {
	var s [32]byte
	for i := range s {
		s[i] = vrt.Byte("s")
	}
	s0 := s
	var h FieldElement
	FeFromBytes(&h, &s)
	vrt.Assert(s == s0, "E03: decoding leaves its source alone")
	vfe.CheckFrom("E03: decoding is exact", h[:], s[:], vhOutEven, vhOutOdd)
	vrt.Reach("done")
}

// VH_E03_to: encoding gives the canonical residue, and whatever it leaves in
// its operand still has the same value.
func VH_E03_to() {
	f := vhFe("f", vhToEven, vhToOdd)
	f0 := f
	var s [32]byte
	FeToBytes(&s, &f)
	vfe.CheckTo("E03: encoding is canonical", s[:], f0[:])
	vfe.CheckOp("E03: operand of encoding keeps its value", "copy", f[:], f0[:], nil, vhInEven, vhInOdd)
	vrt.Reach("done")
}

// VH_E03_invert: inversion is the power p-2.
func VH_E03_invert() {
	f := vhFe("f", vhInEven, vhInOdd)
	f0 := f
	var h FieldElement
	vfe.Cut()
	if vrt.Case(2) == 1 {
		FeInvert(&f, &f)
		h = f
	} else {
		FeInvert(&h, &f)
	}
	vfe.CheckPow("E03: inversion is exact", "57896044618658097711785492504343953926634992332820282019728792003956564819947", h[:], f0[:])
	vrt.Reach("done")
}
