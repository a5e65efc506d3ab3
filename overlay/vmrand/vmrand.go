// Package vmrand stands in for math/rand: one fixed stream.
package vmrand

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type src struct{ s uint64 }

func (s *src) Seed(x int64) { s.s = uint64(x) }
func (s *src) next() uint64 {
	s.s = s.s*6364136223846793005 + 1442695040888963407
	x := s.s
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	return x ^ x>>29
}
func (s *src) Int63() int64   { return int64(s.next() >> 1) }
func (s *src) Uint64() uint64 { return s.next() }

func NewSource(x int64) Source { return &src{uint64(x)} }

type Rand struct{ s Source }

func New(s Source) *Rand { return &Rand{s} }

func (r *Rand) Seed(x int64)     { r.s.Seed(x) }
func (r *Rand) Int63() int64     { return r.s.Int63() }
func (r *Rand) Int() int         { return int(r.s.Int63()) }
func (r *Rand) Int31() int32     { return int32(r.s.Int63() >> 32) }
func (r *Rand) Uint32() uint32   { return uint32(r.s.Int63() >> 31) }
func (r *Rand) Uint64() uint64   { return uint64(r.s.Int63())>>31 | uint64(r.s.Int63())<<32 }
func (r *Rand) Float64() float64 { return float64(r.s.Int63()>>10) / (1 << 53) }
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.s.Int63() % int64(n))
}
func (r *Rand) Int31n(n int32) int32 { return int32(r.Intn(int(n))) }
func (r *Rand) Int63n(n int64) int64 { return int64(r.Intn(int(n))) }
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.s.Int63() >> 20)
	}
	return len(p), nil
}
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	r.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

var std = New(NewSource(1))

func Seed(x int64)                       { std.Seed(x) }
func Int63() int64                       { return std.Int63() }
func Int() int                           { return std.Int() }
func Int31() int32                       { return std.Int31() }
func Uint32() uint32                     { return std.Uint32() }
func Uint64() uint64                     { return std.Uint64() }
func Float64() float64                   { return std.Float64() }
func Intn(n int) int                     { return std.Intn(n) }
func Int31n(n int32) int32               { return std.Int31n(n) }
func Int63n(n int64) int64               { return std.Int63n(n) }
func Read(p []byte) (int, error)         { return std.Read(p) }
func Perm(n int) []int                   { return std.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { std.Shuffle(n, swap) }
