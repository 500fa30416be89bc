package main

import "math/bits"

// Interval reasoning: bounds of terms stated by the path condition decide many later comparisons without the solver.

type urng struct{ lo, hi uint64 }

type bndUndo struct {
	t     *Term
	old   urng
	had   bool
	pcLen int
}

func wmax(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

// learn records the bounds an atom of the path condition states.
func (m *M) learn(t *Term) {
	neg := false
	if t.op == OpBNot {
		neg = true
		t = t.a[0]
	}
	switch t.op {
	case OpULt, OpULe, OpSLt, OpSLe:
	case OpEq:
		if neg || t.a[0].w <= 0 || t.a[0].w > 64 {
			return
		}
		for i := 0; i < 2; i++ {
			if t.a[i].isC() && !t.a[1-i].isC() {
				m.bound1(t.a[1-i], t.a[i].u, t.a[i].u)
			}
		}
		return
	default:
		return
	}
	a, b := t.a[0], t.a[1]
	w := a.w
	if w <= 0 || w > 64 || a.isC() == b.isC() {
		return
	}
	strict := t.op == OpULt || t.op == OpSLt
	if neg { // !(a<b) is b<=a
		a, b = b, a
		strict = !strict
	}
	top := wmax(w)
	if t.op == OpSLt || t.op == OpSLe {
		top = wmax(w - 1)
		c := a
		if b.isC() {
			c = b
		}
		if c.u > top {
			return
		}
		if b.isC() { // a below a positive constant: only useful if a is known not to be negative
			if r := m.rng(a, 0); r.hi > top {
				return
			}
		}
	}
	if b.isC() {
		h := b.u
		if strict {
			if h == 0 {
				return
			}
			h--
		}
		m.bound1(a, 0, h)
	} else {
		l := a.u
		if strict {
			if l == top {
				return
			}
			l++
		}
		m.bound1(b, l, top)
	}
}

func (m *M) bound1(t *Term, lo, hi uint64) {
	old, had := m.bnd[t]
	n := urng{lo, hi}
	if had {
		if old.lo > n.lo {
			n.lo = old.lo
		}
		if old.hi < n.hi {
			n.hi = old.hi
		}
		if n == old {
			return
		}
	}
	if n.lo > n.hi {
		return
	}
	m.bndLog = append(m.bndLog, bndUndo{t, old, had, len(m.pc)})
	m.bnd[t] = n
	// x bounded above through a zero extension or the sum with a constant
	switch {
	case t.op == OpZExt && n.hi <= wmax(t.a[0].w):
		m.bound1(t.a[0], n.lo, n.hi)
	case t.op == OpAdd && t.a[1].isC():
		m.boundSum(t, t.a[0], t.a[1].u, n)
	case t.op == OpAdd && t.a[0].isC():
		m.boundSum(t, t.a[1], t.a[0].u, n)
	}
}

// boundSum: x + c in n and the sum does not wrap.
func (m *M) boundSum(t, x *Term, c uint64, n urng) {
	r := m.rng(x, 0)
	if s, carry := bits.Add64(r.hi, c, 0); carry != 0 || s > wmax(t.w) || n.hi < c {
		return
	}
	lo := uint64(0)
	if n.lo > c {
		lo = n.lo - c
	}
	m.bound1(x, lo, n.hi-c)
}

func (m *M) unlearn(pcLen int) {
	for n := len(m.bndLog); n > 0 && m.bndLog[n-1].pcLen >= pcLen; n-- {
		u := m.bndLog[n-1]
		if u.had {
			m.bnd[u.t] = u.old
		} else {
			delete(m.bnd, u.t)
		}
		m.bndLog = m.bndLog[:n-1]
	}
}

// rng bounds the unsigned value of a term of at most 64 bits.
func (m *M) rng(t *Term, depth int) urng {
	if t.op == OpConst {
		return urng{t.u, t.u}
	}
	r := urng{0, wmax(t.w)}
	if depth < 10 && t.w > 0 && t.w <= 64 {
		switch t.op {
		case OpZExt:
			r = m.rng(t.a[0], depth+1)
		case OpSExt:
			if x := m.rng(t.a[0], depth+1); x.hi <= wmax(t.a[0].w-1) {
				r = x
			}
		case OpAdd:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			lo, c1 := bits.Add64(x.lo, y.lo, 0)
			hi, c2 := bits.Add64(x.hi, y.hi, 0)
			if t.w < 64 {
				c1, c2 = lo>>uint(t.w), hi>>uint(t.w)
				lo, hi = lo&wmax(t.w), hi&wmax(t.w)
			}
			if c1 == c2 {
				r = urng{lo, hi}
			}
		case OpSub:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			if x.lo >= y.hi {
				r = urng{x.lo - y.hi, x.hi - y.lo}
			}
		case OpMul:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			if h, l := bits.Mul64(x.hi, y.hi); h == 0 && l <= wmax(t.w) {
				r = urng{x.lo * y.lo, l}
			}
		case OpUDiv, OpSDiv:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			if y.lo > 0 && (t.op == OpUDiv || x.hi <= wmax(t.w-1) && y.hi <= wmax(t.w-1)) {
				r = urng{x.lo / y.hi, x.hi / y.lo}
			}
		case OpURem, OpSRem:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			if y.lo > 0 && (t.op == OpURem || x.hi <= wmax(t.w-1) && y.hi <= wmax(t.w-1)) {
				if x.hi < y.lo {
					r = x
				} else if r.hi = x.hi; y.hi-1 < r.hi {
					r.hi = y.hi - 1
				}
			}
		case OpConcat:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			s := uint(t.a[1].w)
			r = urng{x.lo<<s | y.lo, x.hi<<s | y.hi}
		case OpExtract:
			if t.u == 0 && t.a[0].w <= 64 {
				if x := m.rng(t.a[0], depth+1); x.hi <= r.hi {
					r = x
				}
			}
		case OpLShr:
			if t.a[1].isC() && t.a[1].u < uint64(t.w) {
				x := m.rng(t.a[0], depth+1)
				r = urng{x.lo >> t.a[1].u, x.hi >> t.a[1].u}
			}
		case OpAnd:
			x, y := m.rng(t.a[0], depth+1), m.rng(t.a[1], depth+1)
			r.hi = x.hi
			if y.hi < r.hi {
				r.hi = y.hi
			}
		case OpIte:
			x, y := m.rng(t.a[1], depth+1), m.rng(t.a[2], depth+1)
			r = x
			if y.lo < r.lo {
				r.lo = y.lo
			}
			if y.hi > r.hi {
				r.hi = y.hi
			}
		}
	}
	if b, ok := m.bnd[t]; ok {
		if b.lo > r.lo {
			r.lo = b.lo
		}
		if b.hi < r.hi {
			r.hi = b.hi
		}
	}
	if r.lo > r.hi {
		return urng{0, wmax(t.w)}
	}
	return r
}

// ival decides an atom from the bounds alone: 1 true, 0 false, -1 undecided.
func (m *M) ival(c *Term) int {
	switch c.op {
	case OpBNot:
		if v := m.ival(c.a[0]); v >= 0 {
			return 1 - v
		}
		return -1
	case OpULt, OpULe, OpSLt, OpSLe, OpEq:
	default:
		return -1
	}
	a, b := c.a[0], c.a[1]
	if a.w <= 0 || a.w > 64 {
		return -1
	}
	x, y := m.rng(a, 0), m.rng(b, 0)
	if c.op == OpSLt || c.op == OpSLe {
		top := wmax(a.w - 1)
		if x.hi > top && x.lo <= top || y.hi > top && y.lo <= top {
			return -1
		}
		// both have known signs: comparing with the sign bit flipped is the unsigned order
		x, y = urng{x.lo ^ (top + 1), x.hi ^ (top + 1)}, urng{y.lo ^ (top + 1), y.hi ^ (top + 1)}
	}
	switch c.op {
	case OpULt, OpSLt:
		if x.hi < y.lo {
			return 1
		}
		if x.lo >= y.hi {
			return 0
		}
	case OpULe, OpSLe:
		if x.hi <= y.lo {
			return 1
		}
		if x.lo > y.hi {
			return 0
		}
	case OpEq:
		if x.hi < y.lo || y.hi < x.lo {
			return 0
		}
	}
	return -1
}
