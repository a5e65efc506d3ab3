package main

// Persistent radix vector (32-way) with optional in-place mutation by owner.

const (
	pvBits = 5
	pvSize = 1 << pvBits
	pvMask = pvSize - 1
)

type owner struct{ _ int }

type pnode[T any] struct {
	own  *owner
	kids []*pnode[T]
	vals []T
}

type pvec[T any] struct {
	root  *pnode[T]
	shift uint
}

func (v pvec[T]) get(i uint32) (T, bool) {
	var z T
	n := v.root
	if n == nil || i>>(v.shift+pvBits) != 0 {
		return z, false
	}
	for s := v.shift; s > 0; s -= pvBits {
		n = n.kids[i>>s&pvMask]
		if n == nil {
			return z, false
		}
	}
	return n.vals[i&pvMask], true
}

func (v pvec[T]) set(i uint32, x T, own *owner) pvec[T] {
	if v.root == nil {
		v.root = &pnode[T]{own: own, vals: make([]T, pvSize)}
		v.shift = 0
	}
	for i>>(v.shift+pvBits) != 0 {
		r := &pnode[T]{own: own, kids: make([]*pnode[T], pvSize)}
		r.kids[0] = v.root
		v.root = r
		v.shift += pvBits
	}
	v.root = pset(v.root, v.shift, i, x, own)
	return v
}

func pset[T any](n *pnode[T], s uint, i uint32, x T, own *owner) *pnode[T] {
	if n == nil {
		n = &pnode[T]{own: own}
		if s == 0 {
			n.vals = make([]T, pvSize)
		} else {
			n.kids = make([]*pnode[T], pvSize)
		}
	} else if own == nil || n.own != own {
		c := &pnode[T]{own: own}
		if s == 0 {
			c.vals = append(make([]T, 0, pvSize), n.vals...)
		} else {
			c.kids = append(make([]*pnode[T], 0, pvSize), n.kids...)
		}
		n = c
	}
	if s == 0 {
		n.vals[i&pvMask] = x
	} else {
		k := i >> s & pvMask
		n.kids[k] = pset(n.kids[k], s-pvBits, i, x, own)
	}
	return n
}

// each visits every slot that exists (zero values included).
func (v pvec[T]) each(f func(i uint32, x T)) {
	var walk func(n *pnode[T], s uint, base uint32)
	walk = func(n *pnode[T], s uint, base uint32) {
		if n == nil {
			return
		}
		if s == 0 {
			for i, x := range n.vals {
				f(base+uint32(i), x)
			}
			return
		}
		for i, k := range n.kids {
			walk(k, s-pvBits, base+uint32(i)<<s)
		}
	}
	walk(v.root, v.shift, 0)
}

// vecNext returns the first written slot at or after i.
func vecNext(v pvec[*Term], i uint32) (uint32, bool) {
	var walk func(n *pnode[*Term], s uint, base uint64) (uint32, bool)
	walk = func(n *pnode[*Term], s uint, base uint64) (uint32, bool) {
		if n == nil || base+uint64(1)<<(s+pvBits) <= uint64(i) {
			return 0, false
		}
		if s == 0 {
			for k, x := range n.vals {
				if x != nil && base+uint64(k) >= uint64(i) {
					return uint32(base) + uint32(k), true
				}
			}
			return 0, false
		}
		for k, kid := range n.kids {
			if r, ok := walk(kid, s-pvBits, base+uint64(k)<<s); ok {
				return r, true
			}
		}
		return 0, false
	}
	return walk(v.root, v.shift, 0)
}
