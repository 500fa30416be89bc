package main

import (
	"math/big"
	"sort"
)

// A linForm states that a BigNum's exact integer value is k + sum(coef*base), given that the conditions in need hold.
type linForm struct {
	m    []linMono
	k    *big.Int
	need []*Term
}

type linMono struct {
	key  linKey
	coef *big.Int
}

type linKey struct {
	t      *Term
	signed bool
}

const maxLin = 12

func (m *M) linOf(b *BigNum) *linForm {
	if b.c != nil {
		return &linForm{k: b.c}
	}
	l := b.lin
	if l == nil {
		l = m.linMemo[linKey{b.t, b.signed}]
	}
	if l != nil {
		ok := true
		for _, n := range l.need {
			if !m.pcSet[n] {
				ok = false
			}
		}
		if ok {
			return l
		}
	}
	return &linForm{m: []linMono{{linKey{b.t, b.signed}, big.NewInt(1)}}, k: new(big.Int)}
}

func linKeyLess(a, b linKey) bool {
	if a.t.id != b.t.id {
		return a.t.id < b.t.id
	}
	return !a.signed && b.signed
}

func linCombine(x, y *linForm, sign int64) *linForm {
	s := big.NewInt(sign)
	r := &linForm{k: new(big.Int).Add(x.k, new(big.Int).Mul(y.k, s))}
	i, j := 0, 0
	for i < len(x.m) || j < len(y.m) {
		switch {
		case j == len(y.m) || i < len(x.m) && linKeyLess(x.m[i].key, y.m[j].key):
			r.m = append(r.m, x.m[i])
			i++
		case i == len(x.m) || linKeyLess(y.m[j].key, x.m[i].key):
			r.m = append(r.m, linMono{y.m[j].key, new(big.Int).Mul(y.m[j].coef, s)})
			j++
		default:
			c := new(big.Int).Add(x.m[i].coef, new(big.Int).Mul(y.m[j].coef, s))
			if c.Sign() != 0 {
				r.m = append(r.m, linMono{x.m[i].key, c})
			}
			i++
			j++
		}
	}
	r.need = append(r.need, x.need...)
	for _, n := range y.need {
		dup := false
		for _, o := range r.need {
			dup = dup || o == n
		}
		if !dup {
			r.need = append(r.need, n)
		}
	}
	sort.Slice(r.need, func(a, b int) bool { return r.need[a].id < r.need[b].id })
	return r
}

// linBuild builds the sum of the monomials with the given sign of coefficient.
func (m *M) linPart(l *linForm, sign int) *BigNum {
	var acc *BigNum
	add := func(b *BigNum) {
		if acc == nil {
			acc = b
			return
		}
		if acc.nonneg() && b.nonneg() {
			if acc.c != nil && b.c != nil {
				acc = &BigNum{c: new(big.Int).Add(acc.c, b.c)}
				return
			}
			w := max(acc.uw(), b.uw()) + 1
			m.chkW(w)
			acc = m.bigNorm(&BigNum{t: m.tb.Add(m.bigU(acc, w), m.bigU(b, w))})
			return
		}
		w := max(acc.sw(), b.sw()) + 1
		m.chkW(w)
		acc = m.bigNorm(&BigNum{t: m.tb.Add(m.bigS(acc, w), m.bigS(b, w)), signed: true})
	}
	for _, x := range l.m {
		if x.coef.Sign() != sign {
			continue
		}
		b := &BigNum{t: x.key.t, signed: x.key.signed}
		if c := new(big.Int).Abs(x.coef); c.Cmp(big.NewInt(1)) != 0 {
			b = m.bigNorm(m.bigMul(b, &BigNum{c: c}))
		}
		add(b)
	}
	if l.k.Sign() == sign {
		add(&BigNum{c: new(big.Int).Abs(l.k)})
	}
	if acc == nil {
		return bigZero
	}
	return acc
}

// linAdd is x + sign*y through the linear forms, or nil when they do not help.
func (m *M) linAdd(x, y *BigNum, sign int64) *BigNum {
	lx, ly := m.linOf(x), m.linOf(y)
	if len(lx.m)+len(ly.m) > maxLin {
		return nil
	}
	l := linCombine(lx, ly, sign)
	if len(l.m) == 0 {
		return &BigNum{c: l.k}
	}
	if len(l.m) == 1 && l.k.Sign() == 0 && l.m[0].coef.IsInt64() && l.m[0].coef.Int64() == 1 {
		return &BigNum{t: l.m[0].key.t, signed: l.m[0].key.signed}
	}
	p, n := m.linPart(l, 1), m.linPart(l, -1)
	var r *BigNum
	if n.c != nil && n.c.Sign() == 0 {
		r = &BigNum{c: p.c, t: p.t, signed: p.signed}
	} else if p.nonneg() && n.nonneg() {
		w := max(p.uw(), n.uw())
		a, b := m.bigU(p, w), m.bigU(n, w)
		le, lt := m.tb.ULe(b, a), m.tb.ULt(b, a)
		if m.pcSet[le] || m.pcSet[lt] {
			c := le
			if !m.pcSet[le] {
				c = lt
			}
			r = &BigNum{t: m.tb.Sub(a, b)}
			has := false
			for _, o := range l.need {
				has = has || o == c
			}
			if !has {
				l.need = append(l.need, c)
			}
		}
	}
	if r == nil {
		w := max(p.sw(), n.sw()) + 1
		m.chkW(w)
		if p.nonneg() && n.nonneg() {
			w--
		}
		r = &BigNum{t: m.tb.Sub(m.bigS(p, w), m.bigS(n, w)), signed: true}
	}
	if r.c == nil {
		r.lin = l
	}
	return r
}

// linDiff splits x - y into its positive and negative parts when that cancels something.
func (m *M) linDiff(x, y *BigNum) (*BigNum, *BigNum, bool) {
	lx, ly := m.linOf(x), m.linOf(y)
	if len(lx.m)+len(ly.m) > maxLin || len(lx.m) <= 1 && len(ly.m) <= 1 && lx.k.Sign() == 0 && ly.k.Sign() == 0 {
		if !(len(lx.m) == 1 && len(ly.m) == 1 && lx.m[0].key == ly.m[0].key) {
			return nil, nil, false
		}
	}
	l := linCombine(lx, ly, -1)
	return m.linPart(l, 1), m.linPart(l, -1), true
}
