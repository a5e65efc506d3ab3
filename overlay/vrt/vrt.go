// Package vrt is the harness run-time: nondeterministic inputs, assumptions
// and assertions.  Under symbolic execution every function here is
// intercepted; compiled natively it replays one concrete input vector.
package vrt

import (
	"encoding/hex"
	"fmt"
	"sort"
)

// Vector is one concrete assignment of a harness's inputs.
type Vector struct {
	Harness string            `json:"harness"`
	Case    int               `json:"case"`
	Ints    map[string]uint64 `json:"ints,omitempty"`
	Bytes   map[string]string `json:"bytes,omitempty"`
}

// Obs is one observation.
type Obs struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

// Result is what a native run of a harness produced.
type Result struct {
	Outcome string   `json:"outcome"` // done, assume, panic
	Panic   string   `json:"panic,omitempty"`
	Failed  []string `json:"failed,omitempty"`
	Reached []string `json:"reached,omitempty"`
	Obs     []Obs    `json:"obs,omitempty"`
}

type stop struct{ kind string }

var (
	cur     *Vector
	counts  map[string]int
	res     *Result
	reached map[string]bool
	reg     = map[string]func(){}
	resets  []func()
)

// Register makes a harness available to the native runner.
func Register(name string, f func()) { reg[name] = f }

// OnReset registers a function restoring a package's initial state.
func OnReset(f func()) { resets = append(resets, f) }

// Names lists the registered harnesses.
func Names() []string {
	var r []string
	for k := range reg {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Run executes one harness natively on a vector.
func Run(v *Vector) (r Result) {
	f, ok := reg[v.Harness]
	if !ok {
		return Result{Outcome: "missing"}
	}
	cur, counts, res, reached = v, map[string]int{}, &r, map[string]bool{}
	for _, g := range resets {
		g()
	}
	defer func() {
		for l := range reached {
			r.Reached = append(r.Reached, l)
		}
		sort.Strings(r.Reached)
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				r.Outcome = s.kind
				return
			}
			r.Outcome = "panic"
			r.Panic = fmt.Sprint(x)
		}
	}()
	r.Outcome = "done"
	f()
	return
}

func key(name string) string {
	n := counts[name]
	counts[name]++
	return fmt.Sprintf("%s#%d", name, n)
}

// Symbolic reports whether the harness runs symbolically.
func Symbolic() bool { return false }

// Case is the number of the case the driver selected, in [0,n).
func Case(n int) int { return cur.Case }

// Thorough reports whether the deep bounds are in force.
func Thorough() bool { return cur.Ints["__thorough"] != 0 }

func Int(name string, lo, hi int) int { return int(cur.Ints[key(name)]) }
func Byte(name string) byte           { return byte(cur.Ints[key(name)]) }
func Bool(name string) bool           { return cur.Ints[key(name)] != 0 }
func Uint32(name string) uint32       { return uint32(cur.Ints[key(name)]) }
func Uint64(name string) uint64       { return cur.Ints[key(name)] }
func Int32(name string) int32         { return int32(cur.Ints[key(name)]) }
func Int64(name string) int64         { return int64(cur.Ints[key(name)]) }

// Choose picks a concrete value in [0,n), one path each.
func Choose(name string, n int) int { return int(cur.Ints[key(name)]) }

// Bytes is an arbitrary byte string with a length in [min,max].
func Bytes(name string, min, max int) []byte {
	k := key(name)
	s, ok := cur.Bytes[k]
	b, err := hex.DecodeString(s)
	if !ok || err != nil {
		b = make([]byte, min)
	}
	return b
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(stop{"assume"})
	}
}

// Assert is a proof obligation.
func Assert(b bool, label string) {
	if !b {
		res.Failed = append(res.Failed, label)
	}
}

// Reach is a vacuity witness: some path must get here.
func Reach(label string) { reached[label] = true }

// Stop ends the path.
func Stop() { panic(stop{"done"}) }

// IsStop reports whether a recovered value is one of vrt's own control panics.
func IsStop(x interface{}) bool { _, ok := x.(stop); return ok }

func Observe(label string, v int) { res.Obs = append(res.Obs, Obs{label, fmt.Sprint(v)}) }
func ObserveBool(label string, b bool) {
	v := 0
	if b {
		v = 1
	}
	Observe(label, v)
}
func ObserveBytes(label string, b []byte) {
	res.Obs = append(res.Obs, Obs{label, hex.EncodeToString(b)})
}

// Non-forking logic.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqStr compares without forking.
func EqStr(a, b string) bool { return a == b }

// Concrete enumerates the values of n (below a bound).
func Concrete(n int) int { return n }

// IsConcrete reports whether b has no symbolic part.
func IsConcrete(b []byte) bool { return true }

// IsConcreteInt reports whether n is a constant.
func IsConcreteInt(n int) bool { return true }

// Fresh returns n unconstrained bytes that are not harness inputs.
func Fresh(name string, n int) []byte { panic("vrt.Fresh is for models") }

// Long says that the path is long: it may take 20 times as many steps.
func Long() {}

// NoSample says that this path takes too long to be executed natively.
func NoSample() {}

// Cut ends the path as "not covered".
func Cut(why string) { panic(stop{"cut"}) }

// Guard: from here to Unguard, whoever writes to a package-level variable of
// the module under test, or to memory reachable from one or from vals,
// violates the property.  Confirmed by running the operations concurrently
// under the race detector.
func Guard(label string, vals ...interface{}) {
	guardInit()
	guardStart(label, vals)
}

func guardInit()                                  {}
func guardStart(label string, vals []interface{}) {}

// Unguard ends it.
func Unguard() {}
