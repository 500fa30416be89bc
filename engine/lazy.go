package main

// LazyB is the result of (*big.Int).Bytes on a symbolic number: its length is symbolic. Only the left-padding idiom
// (len, slicing at const-len, copy) and SetBytes work on it directly; any other use fixes the length, forking.
type LazyB struct {
	m   *M
	t   *Term // multiple of 8 bits
	len *Term // 64 bit
	mat *SliceV
}

// LazyView is base[k-len(l):] for a LazyB l.
type LazyView struct {
	l    *LazyB
	base []Val
	k    int
}

func (m *M) newLazy(t *Term) Val {
	n := (t.w + 7) / 8
	t = m.tb.ZExt(t, n*8)
	ln := m.tb.C(0, 64)
	for k := int32(1); k <= n; k++ {
		top := m.tb.Extract(t, k*8-1, (k-1)*8)
		ln = m.tb.Ite(m.tb.Eq(top, m.tb.C(0, 8)), ln, m.tb.C(uint64(k), 64))
	}
	l := &LazyB{m: m, t: t, len: ln}
	if ln.isC() {
		l.slice()
		return Val{p: l.mat}
	}
	tab, _ := m.side["lazy"].(map[*Term]*Term)
	if tab == nil {
		tab = map[*Term]*Term{}
		m.side["lazy"] = tab
	}
	tab[ln] = t
	return Val{p: l}
}

func (l *LazyB) slice() []Val {
	if l.mat == nil {
		l.mat = &SliceV{l.m.bigBytes(&BigNum{t: l.t})}
		l.m.undo(func() { l.mat = nil })
	}
	return l.mat.s
}

func (v *LazyView) slice() []Val {
	n := len(v.l.slice())
	return v.base[v.k-n:]
}

// lazyOffset recognises off == k - len(lazy).
func (m *M) lazyOffset(off *Term) (t *Term, k int, ok bool) {
	tab, _ := m.side["lazy"].(map[*Term]*Term)
	if tab == nil {
		return
	}
	if off.op == OpSub && off.a[0].isC() {
		if t, ok = tab[off.a[1]]; ok {
			return t, int(off.a[0].u), true
		}
	}
	return nil, 0, false
}

// lazyCopy performs copy(view, lazy) when they belong together.
func (m *M) lazyCopy(v *LazyView, l *LazyB) (Val, bool) {
	if l.mat != nil || v.l.mat != nil || v.l.t != l.t || v.k != len(v.base) {
		return Val{}, false
	}
	n := int(l.t.w / 8)
	for i := 0; i < n; i++ { // i-th byte from the right
		b := m.tb.Extract(l.t, int32(i)*8+7, int32(i)*8)
		c := &v.base[v.k-1-i]
		if c.p == nil && c.n == 0 {
			m.set(c, tv(b)) // beyond the length the byte is zero anyway
		} else {
			m.set(c, tv(m.tb.Ite(m.tb.ULt(m.tb.C(uint64(i), 64), l.len), b, m.asT(*c, 8))))
		}
	}
	return tv(l.len), true
}
