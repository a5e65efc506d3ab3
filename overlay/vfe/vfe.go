// Package vfe states arithmetic modulo 2^255-19.  Under symbolic execution its
// functions are intercepted; natively they compute with math/big.
package vfe

import (
	"math/big"

	"github.com/kisom/psignify/internal/vrt"
)

var one = big.NewInt(1)
var p = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
var exps = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func value(l []int32) *big.Int {
	r := new(big.Int)
	for i, x := range l {
		r.Add(r, new(big.Int).Lsh(big.NewInt(int64(x)), exps[i]))
	}
	return r
}

func bytesLE(b []byte) *big.Int {
	r := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		r.Lsh(r, 8)
		r.Or(r, big.NewInt(int64(b[i])))
	}
	return r
}

func bound(i int, even, odd int64) int64 {
	if i%2 == 0 {
		return even
	}
	return odd
}

// Limbs fills dst with arbitrary limbs within the bounds.
func Limbs(name string, dst []int32, even, odd int64) {
	for i := 0; i < 10; i++ {
		dst[i] = vrt.Int32(name)
		b := bound(i, even, odd)
		vrt.Assume(-b <= int64(dst[i]) && int64(dst[i]) <= b)
	}
}

// Cut replaces the field operations by their contracts (symbolically only).
func Cut() {}

func within(l []int32, even, odd int64) bool {
	for i, x := range l {
		b := bound(i, even, odd)
		if int64(x) < -b || int64(x) > b {
			return false
		}
	}
	return true
}

func same(a, b *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, p).Sign() == 0
}

// CheckOp: out is the result of the operation on f (and g), within the bounds.
func CheckOp(label, kind string, out, f, g []int32, even, odd int64) {
	r := value(f)
	switch kind {
	case "mul":
		r.Mul(r, value(g))
	case "square":
		r.Mul(r, r)
	case "square2":
		r.Mul(r, r)
		r.Lsh(r, 1)
	case "add":
		r.Add(r, value(g))
	case "sub":
		r.Sub(r, value(g))
	case "neg":
		r.Neg(r)
	}
	vrt.Assert(same(r, value(out)) && within(out, even, odd), label)
}

// CheckFrom: out is the residue encoded by src (its top bit ignored).
func CheckFrom(label string, out []int32, src []byte, even, odd int64) {
	b := append([]byte(nil), src...)
	b[31] &= 127
	vrt.Assert(same(bytesLE(b), value(out)) && within(out, even, odd), label)
}

// CheckTo: out is the canonical encoding of f.
func CheckTo(label string, out []byte, f []int32) {
	x := bytesLE(out)
	vrt.Assert(same(x, value(f)) && x.Cmp(p) < 0, label)
}

// CheckPow: out is in to the given power.
func CheckPow(label, exponent string, out, in []int32) {
	e, _ := new(big.Int).SetString(exponent, 10)
	x := value(in)
	x.Mod(x, p)
	vrt.Assert(same(value(out), x.Exp(x, e, p)), label)
}

// CheckPoint: the key converts exactly if it encodes a point, to (1+y)/(1-y).
func CheckPoint(label string, key []byte, ok bool, out []byte) {
	b := append([]byte(nil), key...)
	b[31] &= 127
	y := bytesLE(b)
	y.Mod(y, p)
	d := new(big.Int).ModInverse(big.NewInt(121666), p)
	d.Mul(d, big.NewInt(-121665))
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, one)
	v := new(big.Int).Add(new(big.Int).Mul(d, yy), one)
	x := new(big.Int).Mul(u, v)
	x.Mod(x, p)
	valid := x.Sign() == 0 || big.Jacobi(x, p) == 1
	good := valid == ok
	if valid && ok {
		n := new(big.Int).Add(one, y)
		m := new(big.Int).Sub(one, y)
		m.Mod(m, p)
		m.Exp(m, new(big.Int).Sub(p, big.NewInt(2)), p)
		n.Mul(n, m)
		n.Mod(n, p)
		good = len(out) == 32 && bytesLE(out).Cmp(n) == 0
	}
	vrt.Assert(good, label)
}
