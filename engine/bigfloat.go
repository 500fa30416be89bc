package main

import (
	"math"
	"math/big"
)

// FloatNum is a symbolic non-negative math/big.Float: value = m * 2^e, exact (already rounded to the float's precision).
// It stands in the mantissa field of the big.Float cell; concrete floats keep Go's own representation, so that
// operations that are not modelled run as they are.
type FloatNum struct {
	c *big.Float // concrete value, or
	m *BigNum
	e int
}

// field order of big.Float: prec, mode, acc, form, neg, mant, exp
func (m *M) floatGet(v Val) (*FloatNum, uint) {
	a := m.bigAgg(v)
	prec := uint(a.e[0].n)
	switch x := a.e[5].p.(type) {
	case *FloatNum:
		return x, prec
	case *SliceV, nil:
		f := new(big.Float).SetPrec(prec).SetMode(big.RoundingMode(a.e[1].n))
		switch a.e[3].n {
		case 0:
			return &FloatNum{c: f}, prec
		case 1:
			n := new(big.Int)
			s := x.(*SliceV).s
			for i := len(s) - 1; i >= 0; i-- {
				n.Lsh(n, 64)
				n.Or(n, new(big.Int).SetUint64(s[i].n))
			}
			g := new(big.Float).SetPrec(uint(len(s)*64)).SetInt(n)
			g.SetMantExp(g, int(int32(a.e[6].n))-len(s)*64)
			if a.e[4].n != 0 {
				g.Neg(g)
			}
			f.Set(g)
			return &FloatNum{c: f}, prec
		}
	}
	unsupported("big.Float representation %T", a.e[5].p)
	return nil, 0
}

func (m *M) floatPutC(v Val, f *big.Float) {
	a := m.bigAgg(v)
	m.set(&a.e[0], cv(uint64(f.Prec())))
	m.set(&a.e[1], cv(uint64(f.Mode())))
	m.set(&a.e[2], cv(uint64(uint8(f.Acc()))))
	neg := uint64(0)
	if f.Signbit() {
		neg = 1
	}
	m.set(&a.e[4], cv(neg))
	if f.Sign() == 0 {
		m.set(&a.e[3], cv(0))
		m.set(&a.e[5], Val{p: &SliceV{}})
		m.set(&a.e[6], cv(0))
		return
	}
	if f.IsInf() {
		unsupported("infinite big.Float")
	}
	mant := new(big.Float)
	exp := f.MantExp(mant)
	p := int(f.MinPrec())
	w := (p + 63) / 64
	mant.SetMantExp(mant, w*64)
	n, _ := mant.Int(nil)
	n.Abs(n)
	s := make([]Val, w)
	mask := new(big.Int).SetUint64(math.MaxUint64)
	for i := range s {
		s[i] = cv(new(big.Int).And(n, mask).Uint64())
		n.Rsh(n, 64)
	}
	m.set(&a.e[3], cv(1))
	m.set(&a.e[5], Val{p: &SliceV{s}})
	m.set(&a.e[6], cv(uint64(uint32(int32(exp)))))
}

// floatPut stores round(f) with the precision prec.
func (m *M) floatPut(v Val, f *FloatNum, prec uint) Val {
	if f.c == nil && f.m.c != nil {
		g := new(big.Float).SetPrec(uint(max(f.m.c.BitLen(), 1))).SetInt(f.m.c)
		g.SetMantExp(g, f.e)
		f = &FloatNum{c: g}
	}
	if f.c != nil {
		m.floatPutC(v, new(big.Float).SetPrec(prec).Set(f.c))
		return v
	}
	a := m.bigAgg(v)
	if a.e[1].n != 0 {
		unsupported("big.Float rounding mode")
	}
	r := m.floatRound(f, prec)
	if r.m.c != nil {
		return m.floatPut(v, r, prec)
	}
	m.set(&a.e[0], cv(uint64(prec)))
	m.set(&a.e[3], cv(1))
	m.set(&a.e[4], cv(0))
	m.set(&a.e[5], Val{p: r})
	return v
}

// floatRound rounds to nearest, ties to even.
func (m *M) floatRound(f *FloatNum, prec uint) *FloatNum {
	tb := m.tb
	b := m.bigNorm(f.m)
	p := int32(prec)
	if b.c != nil || b.t.w <= p {
		return &FloatNum{m: b, e: f.e}
	}
	t, w := b.t, b.t.w
	res := tb.ZExt(t, w+1)
	for top := p; top < w; top++ {
		d := top + 1 - p
		is := tb.Eq(tb.Extract(t, w-1, top), tb.C(1, w-top))
		if w-top > 64 {
			is = tb.Eq(tb.Extract(t, w-1, top), tb.CB(big.NewInt(1), w-top))
		}
		one := func(x *Term) *Term { return tb.Eq(x, tb.C(1, 1)) }
		up := one(tb.Extract(t, d, d))
		if d > 1 {
			up = tb.Or(up, tb.Not(tb.Eq(tb.Extract(t, d-2, 0), tb.CB(new(big.Int), d-1))))
		}
		up = tb.And(one(tb.Extract(t, d-1, d-1)), up)
		hi := tb.ZExt(tb.Extract(t, w-1, d), w+1-d)
		hi = tb.Add(hi, tb.Ite(up, tb.CB(big.NewInt(1), w+1-d), tb.CB(new(big.Int), w+1-d)))
		res = tb.Ite(is, tb.Concat(hi, tb.CB(new(big.Int), d)), res)
	}
	return &FloatNum{m: m.bigNorm(&BigNum{t: res}), e: f.e}
}

// floatSym gives mantissa and exponent of either kind.
func (m *M) floatSym(f *FloatNum) (*BigNum, int) {
	if f.c == nil {
		return f.m, f.e
	}
	if f.c.Sign() < 0 {
		unsupported("negative big.Float with symbolic operand")
	}
	if f.c.Sign() == 0 {
		return bigZero, 0
	}
	mant := new(big.Float)
	exp := f.c.MantExp(mant)
	p := int(f.c.MinPrec())
	mant.SetMantExp(mant, p)
	n, _ := mant.Int(nil)
	return &BigNum{c: n}, exp - p
}

func init() {
	add := func(n string, f intrinsic) { intrinsics["(*math/big.Float)."+n] = f }
	bin := func(conc func(z, x, y *big.Float) *big.Float, sym func(m *M, x, y *FloatNum, prec uint) *FloatNum) intrinsic {
		return func(m *M, fr *Frame, a []Val) (Val, ctl) {
			_, zp := m.floatGet(a[0])
			x, xp := m.floatGet(a[1])
			y, yp := m.floatGet(a[2])
			if zp == 0 {
				zp = max(xp, yp)
			}
			if x.c != nil && y.c != nil {
				m.floatPutC(a[0], conc(new(big.Float).SetPrec(zp).SetMode(big.RoundingMode(m.bigAgg(a[0]).e[1].n)), x.c, y.c))
				return a[0], cNext
			}
			return m.floatPut(a[0], sym(m, x, y, zp), zp), cNext
		}
	}
	add("Mul", bin((*big.Float).Mul, func(m *M, x, y *FloatNum, prec uint) *FloatNum {
		xm, xe := m.floatSym(x)
		ym, ye := m.floatSym(y)
		return &FloatNum{m: m.bigMul(xm, ym), e: xe + ye}
	}))
	add("Add", bin((*big.Float).Add, func(m *M, x, y *FloatNum, prec uint) *FloatNum {
		xm, xe := m.floatSym(x)
		ym, ye := m.floatSym(y)
		if xe > ye {
			xm, xe = m.bigLsh(xm, uint64(xe-ye)), ye
		} else if ye > xe {
			ym = m.bigLsh(ym, uint64(ye-xe))
		}
		return &FloatNum{m: m.bigAdd(xm, ym), e: xe}
	}))
	add("Quo", bin((*big.Float).Quo, func(m *M, x, y *FloatNum, prec uint) *FloatNum {
		if y.c == nil {
			unsupported("big.Float division by a symbolic value")
		}
		xm, xe := m.floatSym(x)
		ym, ye := m.floatSym(y)
		if ym.c.Sign() == 0 {
			unsupported("big.Float division by zero")
		}
		if ym.c.BitLen() == 1 {
			return &FloatNum{m: xm, e: xe - ye}
		}
		// enough bits that what is cut off is only the sticky bit, which is appended
		s := uint64(prec) + 2 + uint64(ym.c.BitLen())
		var q, r *BigNum
		if ym.c.BitLen() <= 6 {
			k, rem := m.bigUDivRem(xm, ym)
			tab := bigZero
			n := int(ym.c.Int64())
			tb := m.tb
			w := int32(s) + 1
			t := tb.CB(new(big.Int), w)
			for i := 1; i < n; i++ {
				v := new(big.Int).Lsh(big.NewInt(int64(i)), uint(s))
				v.Quo(v, ym.c)
				is, eq := m.bigCmpTerms(rem, &BigNum{c: big.NewInt(int64(i))})
				_ = is
				t = tb.Ite(eq, tb.CB(v, w), t)
			}
			tab = m.bigNorm(&BigNum{t: t})
			q, r = m.bigAdd(m.bigLsh(k, s), tab), rem
		} else {
			q, r = m.bigUDivRem(m.bigLsh(xm, s), ym)
		}
		tb := m.tb
		sticky := tb.Ite(m.bigIsZero(r), tb.C(0, 1), tb.C(1, 1))
		return &FloatNum{m: m.bigAdd(m.bigLsh(q, 1), m.bigNorm(&BigNum{t: sticky})), e: xe - ye - int(s) - 1}
	}))
	add("SetPrec", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		z, _ := m.floatGet(a[0])
		p := uint(a[1].n)
		if a[1].p != nil {
			unsupported("symbolic precision")
		}
		if z.c != nil {
			m.floatPutC(a[0], new(big.Float).SetMode(z.c.Mode()).Set(z.c).SetPrec(p))
			return a[0], cNext
		}
		return m.floatPut(a[0], z, p), cNext
	})
	add("SetInt", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		_, zp := m.floatGet(a[0])
		x := m.bigGet(a[1])
		if x.c != nil {
			m.floatPutC(a[0], new(big.Float).SetPrec(zp).SetMode(big.RoundingMode(m.bigAgg(a[0]).e[1].n)).SetInt(x.c))
			return a[0], cNext
		}
		if x.signed {
			if m.decide(m.bigIsNeg(x)) {
				unsupported("negative symbolic big.Float")
			}
			x = m.bigAbs(x)
		}
		if zp == 0 {
			if x.c == nil && x.t.w > 64 {
				unsupported("big.Float with data-dependent precision")
			}
			zp = 64
		}
		return m.floatPut(a[0], &FloatNum{m: x}, zp), cNext
	})
	add("Set", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		_, zp := m.floatGet(a[0])
		x, xp := m.floatGet(a[1])
		if zp == 0 {
			zp = xp
		}
		return m.floatPut(a[0], x, zp), cNext
	})
	add("Cmp", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x, _ := m.floatGet(a[0])
		y, _ := m.floatGet(a[1])
		if x.c != nil && y.c != nil {
			return cv(uint64(int64(x.c.Cmp(y.c)))), cNext
		}
		xm, xe := m.floatSym(x)
		ym, ye := m.floatSym(y)
		if xe > ye {
			xm = m.bigLsh(xm, uint64(xe-ye))
		} else if ye > xe {
			ym = m.bigLsh(ym, uint64(ye-xe))
		}
		return m.bigCmp(xm, ym), cNext
	})
	add("Sign", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x, _ := m.floatGet(a[0])
		if x.c != nil {
			return cv(uint64(int64(x.c.Sign()))), cNext
		}
		return m.bigSign(x.m), cNext
	})
	add("Int", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x, _ := m.floatGet(a[0])
		var r *BigNum
		if x.c != nil {
			n, _ := x.c.Int(nil)
			r = &BigNum{c: n}
		} else if x.e >= 0 {
			r = m.bigLsh(x.m, uint64(x.e))
		} else {
			r = m.bigRsh(x.m, uint64(-x.e))
		}
		z := a[1]
		if z.p == nil {
			z = m.bigNew(r)
		} else {
			m.bigPut(z, r)
		}
		return tuple(z, Val{p: &Poison{"accuracy of a big.Float conversion"}}), cNext
	})
	add("SetInt64", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		_, zp := m.floatGet(a[0])
		if a[1].p != nil {
			unsupported("big.Float from a symbolic int64")
		}
		m.floatPutC(a[0], new(big.Float).SetPrec(zp).SetInt64(int64(a[1].n)))
		return a[0], cNext
	})
	add("SetString", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		_, zp := m.floatGet(a[0])
		s, ok := a[1].p.(*Str)
		if !ok || s.sym != nil || s.poi != "" {
			unsupported("big.Float from a symbolic text")
		}
		f, k := new(big.Float).SetPrec(zp).SetString(s.c)
		if !k {
			return tuple(Val{}, bv(false)), cNext
		}
		m.floatPutC(a[0], f)
		return tuple(a[0], bv(true)), cNext
	})
	intrinsics["math/big.NewFloat"] = func(m *M, fr *Frame, a []Val) (Val, ctl) {
		e := make([]Val, 7)
		cell := Val{p: &Val{p: &Agg{e: e}}}
		m.floatPutC(cell, big.NewFloat(math.Float64frombits(a[0].n)))
		return cell, cNext
	}
}
