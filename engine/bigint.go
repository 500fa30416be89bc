package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// BigNum is the value of a math/big.Int: concrete (c) or symbolic.
// Symbolic: t is a bit-vector; value = unsigned(t) when !signed, two's complement otherwise. All operations are exact:
// result widths grow as needed, so no wrap-around is introduced.
type BigNum struct {
	c      *big.Int
	t      *Term
	signed bool
	lin    *linForm // known linear decomposition of the value, or nil
}

var bigZero = &BigNum{c: new(big.Int)}

func (m *M) bigAgg(v Val) *Agg {
	p := m.derefPtr(v)
	a, ok := p.p.(*Agg)
	if !ok {
		m.poisonCheck(*p)
		unsupported("big.Int cell %T", p.p)
	}
	return a
}

func (m *M) bigGet(v Val) *BigNum {
	a := m.bigAgg(v)
	switch x := a.e[1].p.(type) {
	case nil:
		return bigZero
	case *BigNum:
		return x
	case *SliceV:
		// abs given as a []Word literal (package-level composite); rebuild
		n := new(big.Int)
		for i := len(x.s) - 1; i >= 0; i-- {
			n.Lsh(n, 64)
			n.Or(n, new(big.Int).SetUint64(x.s[i].n))
		}
		if a.e[0].n != 0 {
			n.Neg(n)
		}
		return &BigNum{c: n}
	}
	m.poisonCheck(a.e[1])
	unsupported("big.Int repr %T", a.e[1].p)
	return nil
}

func (m *M) bigPut(v Val, b *BigNum) Val {
	a := m.bigAgg(v)
	m.set(&a.e[1], Val{p: m.bigNorm(b)})
	return v
}

func (m *M) bigNew(b *BigNum) Val {
	cell := &Val{p: &Agg{e: []Val{{}, {p: m.bigNorm(b)}}}}
	return Val{p: cell}
}

func (m *M) bigNorm(b *BigNum) *BigNum {
	if b.c != nil {
		return b
	}
	if b.t.isC() {
		if b.signed {
			return &BigNum{c: new(big.Int).Set(b.t.csigned())}
		}
		return &BigNum{c: new(big.Int).Set(b.t.cbig())}
	}
	e := m.tb.effw(b.t)
	if e < 1 {
		e = 1
	}
	r := b
	if b.signed && e < b.t.w {
		// sign bit known zero
		r = m.bigNorm(&BigNum{t: m.tb.Extract(b.t, e-1, 0)})
	} else if !b.signed && e < b.t.w {
		r = &BigNum{t: m.tb.Extract(b.t, e-1, 0)}
	} else if b.signed && b.t.op == OpSExt {
		r = &BigNum{t: b.t.a[0], signed: true}
	}
	if b.lin != nil && r.c == nil {
		if r.lin == nil {
			r.lin = b.lin
		}
		m.linMemo[linKey{r.t, r.signed}] = b.lin
	}
	return r
}

// width needed as signed
func (b *BigNum) sw() int32 {
	if b.c != nil {
		return int32(b.c.BitLen()) + 1
	}
	if b.signed {
		return b.t.w
	}
	return b.t.w + 1
}

// as signed term of width w (>= sw)
func (m *M) bigS(b *BigNum, w int32) *Term {
	if b.c != nil {
		return m.tb.CB(new(big.Int).And(b.c, bigMask(w)), w)
	}
	if b.t.w == w {
		return b.t
	}
	if b.signed {
		return m.tb.SExt(b.t, w)
	}
	return m.tb.ZExt(b.t, w)
}

func (b *BigNum) nonneg() bool {
	if b.c != nil {
		return b.c.Sign() >= 0
	}
	return !b.signed
}

func (b *BigNum) uw() int32 {
	if b.c != nil {
		n := int32(b.c.BitLen())
		if n == 0 {
			n = 1
		}
		return n
	}
	return b.t.w
}

func (m *M) bigU(b *BigNum, w int32) *Term { return m.bigS(b, w) }

const maxBigW = 4200

func (m *M) bigAdd(x, y *BigNum) *BigNum {
	if x.c != nil && y.c != nil {
		return &BigNum{c: new(big.Int).Add(x.c, y.c)}
	}
	if r := m.linAdd(x, y, 1); r != nil {
		return r
	}
	if x.nonneg() && y.nonneg() {
		w := max(x.uw(), y.uw()) + 1
		m.chkW(w)
		return &BigNum{t: m.tb.Add(m.bigU(x, w), m.bigU(y, w))}
	}
	w := max(x.sw(), y.sw()) + 1
	m.chkW(w)
	return &BigNum{t: m.tb.Add(m.bigS(x, w), m.bigS(y, w)), signed: true}
}

func (m *M) chkW(w int32) {
	if w > maxBigW {
		unsupported("symbolic big.Int wider than %d bits", maxBigW)
	}
}

func (m *M) bigSub(x, y *BigNum) *BigNum {
	if x.c != nil && y.c != nil {
		return &BigNum{c: new(big.Int).Sub(x.c, y.c)}
	}
	if x.t != nil && x.t == y.t && x.signed == y.signed {
		return bigZero
	}
	if r := m.linAdd(x, y, -1); r != nil {
		return r
	}
	// x - y known nonneg on this path?
	if x.nonneg() && y.nonneg() {
		w := max(x.uw(), y.uw())
		a, b := m.bigU(x, w), m.bigU(y, w)
		if m.pcSet[m.tb.ULe(b, a)] || m.pcSet[m.tb.ULt(b, a)] {
			return &BigNum{t: m.tb.Sub(a, b)}
		}
	}
	w := max(x.sw(), y.sw()) + 1
	m.chkW(w)
	if x.nonneg() && y.nonneg() {
		w--
	}
	return &BigNum{t: m.tb.Sub(m.bigS(x, w), m.bigS(y, w)), signed: true}
}

func (m *M) bigMul(x, y *BigNum) *BigNum {
	if x.c != nil && y.c != nil {
		return &BigNum{c: new(big.Int).Mul(x.c, y.c)}
	}
	if x.nonneg() && y.nonneg() {
		w := x.uw() + y.uw()
		m.chkW(w)
		return &BigNum{t: m.tb.Mul(m.bigU(x, w), m.bigU(y, w))}
	}
	w := x.sw() + y.sw()
	m.chkW(w)
	return &BigNum{t: m.tb.Mul(m.bigS(x, w), m.bigS(y, w)), signed: true}
}

func (m *M) bigNeg(x *BigNum) *BigNum {
	if x.c != nil {
		return &BigNum{c: new(big.Int).Neg(x.c)}
	}
	if r := m.linAdd(bigZero, x, -1); r != nil {
		return r
	}
	w := x.sw() + 1
	if !x.signed {
		w--
	}
	return &BigNum{t: m.tb.Neg(m.bigS(x, w)), signed: true}
}

func (m *M) bigIsNeg(x *BigNum) *Term {
	if x.nonneg() {
		return m.tb.False
	}
	if x.c != nil {
		return m.tb.True
	}
	return m.tb.SLt(x.t, m.tb.CB(new(big.Int), x.t.w))
}

func (m *M) bigIsZero(x *BigNum) *Term {
	if x.c != nil {
		return m.tb.Bool(x.c.Sign() == 0)
	}
	return m.tb.Eq(x.t, m.tb.CB(new(big.Int), x.t.w))
}

// bigMag returns |x| as nonneg, deciding the sign when it is unknown.
func (m *M) bigMag(x *BigNum) (*BigNum, bool) {
	if x.c != nil {
		return &BigNum{c: new(big.Int).Abs(x.c)}, x.c.Sign() < 0
	}
	if !x.signed {
		return x, false
	}
	neg := m.decide(m.bigIsNeg(x))
	if neg {
		return m.bigNorm(&BigNum{t: m.tb.Neg(x.t)}), true // -min fits unsigned
	}
	if x.t.w == 1 {
		return bigZero, false
	}
	return m.bigNorm(&BigNum{t: m.tb.Extract(x.t, x.t.w-2, 0)}), false
}

// bigAbsTerm is |x| without forking.
func (m *M) bigAbs(x *BigNum) *BigNum {
	if x.c != nil {
		return &BigNum{c: new(big.Int).Abs(x.c)}
	}
	if !x.signed {
		return x
	}
	return m.bigNorm(&BigNum{t: m.tb.Ite(m.bigIsNeg(x), m.tb.Neg(x.t), x.t)})
}

// bigDecidedMag is the absolute value with the sign decided, which keeps the terms simple where differences are stored as bytes.
func (m *M) bigDecidedMag(x *BigNum) *BigNum {
	if x.c != nil || !x.signed {
		return m.bigAbs(x)
	}
	if m.decide(m.bigIsNeg(x)) {
		x = m.bigNeg(x)
		if x.c != nil || !x.signed {
			return x
		}
	}
	w := x.t.w - 1
	if w == 0 {
		return bigZero
	}
	return m.bigNorm(&BigNum{t: m.tb.Extract(x.t, w-1, 0), lin: x.lin})
}

func (m *M) bigCmpTerms(x, y *BigNum) (lt, eq *Term) {
	if p, n, ok := m.linDiff(x, y); ok {
		x, y = p, n
		if x.c != nil && y.c != nil {
			return m.tb.Bool(x.c.Cmp(y.c) < 0), m.tb.Bool(x.c.Cmp(y.c) == 0)
		}
	}
	if x.nonneg() && y.nonneg() {
		w := max(x.uw(), y.uw())
		a, b := m.bigU(x, w), m.bigU(y, w)
		return m.tb.ULt(a, b), m.tb.Eq(a, b)
	}
	w := max(x.sw(), y.sw())
	a, b := m.bigS(x, w), m.bigS(y, w)
	return m.tb.SLt(a, b), m.tb.Eq(a, b)
}

func (m *M) bigCmp(x, y *BigNum) Val {
	if x.c != nil && y.c != nil {
		return cv(uint64(int64(x.c.Cmp(y.c))))
	}
	lt, eq := m.bigCmpTerms(x, y)
	tb := m.tb
	return tv(tb.Ite(lt, tb.C(^uint64(0), 64), tb.Ite(eq, tb.C(0, 64), tb.C(1, 64))))
}

func (m *M) bigSign(x *BigNum) Val {
	if x.c != nil {
		return cv(uint64(int64(x.c.Sign())))
	}
	tb := m.tb
	return tv(tb.Ite(m.bigIsNeg(x), tb.C(^uint64(0), 64), tb.Ite(m.bigIsZero(x), tb.C(0, 64), tb.C(1, 64))))
}

// division of magnitudes
func (m *M) bigUDivRem(x, y *BigNum) (*BigNum, *BigNum) {
	if x.c != nil && y.c != nil {
		q, r := new(big.Int).QuoRem(x.c, y.c, new(big.Int))
		return &BigNum{c: q}, &BigNum{c: r}
	}
	if y.c != nil && y.c.Sign() > 0 && new(big.Int).And(y.c, new(big.Int).Sub(y.c, big.NewInt(1))).Sign() == 0 {
		k := int32(y.c.BitLen() - 1)
		if k == 0 {
			return x, bigZero
		}
		if x.t.w <= k {
			return bigZero, x
		}
		return m.bigNorm(&BigNum{t: m.tb.Extract(x.t, x.t.w-1, k)}), m.bigNorm(&BigNum{t: m.tb.Extract(x.t, k-1, 0)})
	}
	w := max(x.uw(), y.uw())
	a, b := m.bigU(x, w), m.bigU(y, w)
	return m.bigNorm(&BigNum{t: m.tb.UDiv(a, b)}), m.bigNorm(&BigNum{t: m.tb.URem(a, b)})
}

func (m *M) bigZeroDiv(y *BigNum) {
	if m.decide(m.bigIsZero(y)) {
		panic(goPanic{Val{p: &Iface{types.Typ[types.String], sv("division by zero")}}})
	}
}

func (m *M) bigQuoRem(x, y *BigNum) (*BigNum, *BigNum) {
	m.bigZeroDiv(y)
	ax, nx := m.bigMag(x)
	ay, ny := m.bigMag(y)
	q, r := m.bigUDivRem(ax, ay)
	if nx != ny {
		q = m.bigNeg(q)
	}
	if nx {
		r = m.bigNeg(r)
	}
	return m.bigNorm(q), m.bigNorm(r)
}

func (m *M) bigDivMod(x, y *BigNum) (*BigNum, *BigNum) { // Euclidean
	q, r := m.bigQuoRem(x, y)
	if r.nonneg() {
		return q, r
	}
	if m.decide(m.bigIsNeg(r)) {
		if y.nonneg() || !m.decide(m.bigIsNeg(y)) {
			return m.bigNorm(m.bigSub(q, &BigNum{c: big.NewInt(1)})), m.bigNorm(m.bigAdd(r, y))
		}
		return m.bigNorm(m.bigAdd(q, &BigNum{c: big.NewInt(1)})), m.bigNorm(m.bigSub(r, y))
	}
	return q, r
}

// bigBytes: minimal big-endian bytes of |x|; forks on the length.
func (m *M) bigBytes(x *BigNum) []Val {
	x = m.bigAbs(x)
	if x.c != nil {
		return bytesVal(x.c.Bytes()).slice()
	}
	nb := (x.t.w + 7) / 8
	t := m.tb.ZExt(x.t, nb*8)
	// the highest non-zero byte
	k := nb
	for k > 0 {
		top := m.tb.Extract(t, k*8-1, (k-1)*8)
		if m.decide(m.tb.Not(m.tb.Eq(top, m.tb.C(0, 8)))) {
			break
		}
		k--
	}
	out := make([]Val, k)
	for i := int32(0); i < k; i++ {
		out[k-1-i] = tv(m.tb.Extract(t, i*8+7, i*8))
	}
	return out
}

func (m *M) bigFromBytes(bs []Val) *BigNum {
	conc := true
	for _, b := range bs {
		if b.p != nil {
			conc = false
			break
		}
	}
	if conc {
		buf := make([]byte, len(bs))
		for i, b := range bs {
			buf[i] = byte(b.n)
		}
		return &BigNum{c: new(big.Int).SetBytes(buf)}
	}
	// strip leading concrete zeros
	for len(bs) > 1 && bs[0].p == nil && bs[0].n == 0 {
		bs = bs[1:]
	}
	var t *Term
	for _, b := range bs {
		x := m.asT(b, 8)
		if t == nil {
			t = x
		} else {
			t = m.tb.Concat(t, x)
		}
	}
	m.chkW(t.w)
	return &BigNum{t: t}
}

func (m *M) bigLow64(x *BigNum) *Term {
	if x.c != nil {
		return m.tb.C(new(big.Int).And(x.c, bigMask(64)).Uint64(), 64)
	}
	if x.t.w == 64 {
		return x.t
	}
	if x.t.w > 64 {
		return m.tb.Extract(x.t, 63, 0)
	}
	if x.signed {
		return m.tb.SExt(x.t, 64)
	}
	return m.tb.ZExt(x.t, 64)
}

func (m *M) bigBitLen(x *BigNum) Val {
	x = m.bigAbs(x)
	if x.c != nil {
		return cv(uint64(x.c.BitLen()))
	}
	tb := m.tb
	r := tb.C(0, 64)
	// balanced would be nicer; widths are small
	for i := int32(0); i < x.t.w; i++ {
		r = tb.Ite(tb.Eq(tb.Extract(x.t, i, i), tb.C(1, 1)), tb.C(uint64(i+1), 64), r)
	}
	return tv(r)
}

func (m *M) bigBit(op byte, x, y *BigNum) *BigNum {
	if x.c != nil && y.c != nil {
		z := new(big.Int)
		switch op {
		case '&':
			z.And(x.c, y.c)
		case '|':
			z.Or(x.c, y.c)
		case '^':
			z.Xor(x.c, y.c)
		}
		return &BigNum{c: z}
	}
	tb := m.tb
	f := func(a, b *Term) *Term {
		switch op {
		case '&':
			return tb.BAnd(a, b)
		case '|':
			return tb.BOr(a, b)
		}
		return tb.Xor(a, b)
	}
	if op == '&' && (x.nonneg() || y.nonneg()) {
		// result is nonneg and no wider than the nonneg operand
		if x.nonneg() && y.nonneg() {
			w := min(x.uw(), y.uw())
			W := max(x.uw(), y.uw())
			a, b := m.bigU(x, W), m.bigU(y, W)
			return &BigNum{t: f(tb.Extract(a, w-1, 0), tb.Extract(b, w-1, 0))}
		}
		n, s := x, y
		if !x.nonneg() {
			n, s = y, x
		}
		w := n.uw()
		var st *Term
		if s.sw() >= w {
			st = tb.Extract(m.bigS(s, s.sw()), w-1, 0)
		} else {
			st = m.bigS(s, w)
		}
		return &BigNum{t: f(m.bigU(n, w), st)}
	}
	if x.nonneg() && y.nonneg() {
		w := max(x.uw(), y.uw())
		return &BigNum{t: f(m.bigU(x, w), m.bigU(y, w))}
	}
	w := max(x.sw(), y.sw())
	return &BigNum{t: f(m.bigS(x, w), m.bigS(y, w)), signed: true}
}

func (m *M) bigLsh(x *BigNum, n uint64) *BigNum {
	if x.c != nil {
		if n > 1<<20 {
			unsupported("huge shift")
		}
		return &BigNum{c: new(big.Int).Lsh(x.c, uint(n))}
	}
	if n == 0 {
		return x
	}
	m.chkW(x.t.w + int32(min(n, 100000)))
	return &BigNum{t: m.tb.Concat(x.t, m.tb.CB(new(big.Int), int32(n))), signed: x.signed}
}

func (m *M) bigRsh(x *BigNum, n uint64) *BigNum {
	if x.c != nil {
		return &BigNum{c: new(big.Int).Rsh(x.c, uint(min(n, 1<<30)))}
	}
	if n >= uint64(x.t.w) {
		if x.signed {
			return &BigNum{t: m.tb.Extract(x.t, x.t.w-1, x.t.w-1), signed: true}
		}
		return bigZero
	}
	return &BigNum{t: m.tb.Extract(x.t, x.t.w-1, int32(n)), signed: x.signed}
}

// conc returns the concrete value or forks nothing: unsupported when symbolic.
func (b *BigNum) conc(what string) *big.Int {
	if b.c == nil {
		unsupported("symbolic big.Int in %s", what)
	}
	return b.c
}

func (m *M) bigFromU(v Val, w int32, signed bool) *BigNum {
	if v.p == nil {
		if signed {
			return &BigNum{c: big.NewInt(sx(v.n, w))}
		}
		return &BigNum{c: new(big.Int).SetUint64(v.n)}
	}
	return m.bigNorm(&BigNum{t: m.asT(v, w), signed: signed})
}

func (m *M) bigText(x *BigNum, base int) Val {
	if x.c != nil {
		return sv(x.c.Text(base))
	}
	return Val{p: &Str{poi: fmt.Sprintf("decimal text of a symbolic big.Int #%d", x.t.id)}}
}

func init() {
	b1 := func(f func(m *M, x *BigNum) *BigNum) intrinsic {
		return func(m *M, fr *Frame, a []Val) (Val, ctl) {
			return m.bigPut(a[0], f(m, m.bigGet(a[1]))), cNext
		}
	}
	b2 := func(f func(m *M, x, y *BigNum) *BigNum) intrinsic {
		return func(m *M, fr *Frame, a []Val) (Val, ctl) {
			return m.bigPut(a[0], f(m, m.bigGet(a[1]), m.bigGet(a[2]))), cNext
		}
	}
	add := func(n string, f intrinsic) { intrinsics["(*math/big.Int)."+n] = f }
	add("Add", b2((*M).bigAdd))
	add("Sub", b2((*M).bigSub))
	add("Mul", b2((*M).bigMul))
	add("Neg", b1((*M).bigNeg))
	add("Abs", b1((*M).bigAbs))
	add("Set", b1(func(m *M, x *BigNum) *BigNum { return x }))
	add("And", b2(func(m *M, x, y *BigNum) *BigNum { return m.bigBit('&', x, y) }))
	add("Or", b2(func(m *M, x, y *BigNum) *BigNum { return m.bigBit('|', x, y) }))
	add("Xor", b2(func(m *M, x, y *BigNum) *BigNum { return m.bigBit('^', x, y) }))
	add("Not", b1(func(m *M, x *BigNum) *BigNum { return m.bigSub(m.bigNeg(x), &BigNum{c: big.NewInt(1)}) }))
	add("AndNot", b2(func(m *M, x, y *BigNum) *BigNum {
		if x.c != nil && y.c != nil {
			return &BigNum{c: new(big.Int).AndNot(x.c, y.c)}
		}
		return m.bigBit('&', x, m.bigNorm(m.bigSub(m.bigNeg(y), &BigNum{c: big.NewInt(1)})))
	}))
	add("Quo", b2(func(m *M, x, y *BigNum) *BigNum { q, _ := m.bigQuoRem(x, y); return q }))
	add("Rem", b2(func(m *M, x, y *BigNum) *BigNum { _, r := m.bigQuoRem(x, y); return r }))
	add("Div", b2(func(m *M, x, y *BigNum) *BigNum { q, _ := m.bigDivMod(x, y); return q }))
	add("Mod", b2(func(m *M, x, y *BigNum) *BigNum { _, r := m.bigDivMod(x, y); return r }))
	add("DivMod", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		q, r := m.bigDivMod(m.bigGet(a[1]), m.bigGet(a[2]))
		m.bigPut(a[0], q)
		m.bigPut(a[3], r)
		return tuple(a[0], a[3]), cNext
	})
	add("QuoRem", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		q, r := m.bigQuoRem(m.bigGet(a[1]), m.bigGet(a[2]))
		m.bigPut(a[0], q)
		m.bigPut(a[3], r)
		return tuple(a[0], a[3]), cNext
	})
	add("Cmp", func(m *M, fr *Frame, a []Val) (Val, ctl) { return m.bigCmp(m.bigGet(a[0]), m.bigGet(a[1])), cNext })
	add("CmpAbs", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return m.bigCmp(m.bigAbs(m.bigGet(a[0])), m.bigAbs(m.bigGet(a[1]))), cNext
	})
	add("Sign", func(m *M, fr *Frame, a []Val) (Val, ctl) { return m.bigSign(m.bigGet(a[0])), cNext })
	add("BitLen", func(m *M, fr *Frame, a []Val) (Val, ctl) { return m.bigBitLen(m.bigGet(a[0])), cNext })
	add("Bytes", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigDecidedMag(m.bigGet(a[0]))
		if x.c == nil {
			return m.newLazy(x.t), cNext
		}
		return Val{p: &SliceV{m.bigBytes(x)}}, cNext
	})
	add("FillBytes", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigAbs(m.bigGet(a[0]))
		buf := a[1].slice()
		n := int32(len(buf)) * 8
		if x.c != nil {
			if x.c.BitLen() > int(n) {
				panic(goPanic{Val{p: &Iface{types.Typ[types.String], sv("math/big: buffer too small to fit value")}}})
			}
		}
		w := max(n, x.uw())
		if w == 0 {
			return a[1], cNext
		}
		t := m.bigU(x, w)
		if w > n {
			if !m.decide(m.tb.Eq(m.tb.Extract(t, w-1, n), m.tb.CB(new(big.Int), w-n))) {
				panic(goPanic{Val{p: &Iface{types.Typ[types.String], sv("math/big: buffer too small to fit value")}}})
			}
		}
		for i := range buf {
			lo := int32(len(buf)-1-i) * 8
			m.set(&buf[i], tv(m.tb.Extract(t, lo+7, lo)))
		}
		return a[1], cNext
	})
	add("SetBytes", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		if l, ok := a[1].p.(*LazyB); ok && l.mat == nil {
			return m.bigPut(a[0], &BigNum{t: l.t}), cNext
		}
		return m.bigPut(a[0], m.bigFromBytes(a[1].slice())), cNext
	})
	add("SetUint64", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return m.bigPut(a[0], m.bigFromU(a[1], 64, false)), cNext
	})
	add("SetInt64", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return m.bigPut(a[0], m.bigFromU(a[1], 64, true)), cNext
	})
	intrinsics["math/big.NewInt"] = func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return m.bigNew(m.bigFromU(a[0], 64, true)), cNext
	}
	add("Uint64", func(m *M, fr *Frame, a []Val) (Val, ctl) { return tv(m.bigLow64(m.bigGet(a[0]))), cNext })
	add("Int64", func(m *M, fr *Frame, a []Val) (Val, ctl) { return tv(m.bigLow64(m.bigGet(a[0]))), cNext })
	add("IsUint64", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigGet(a[0])
		if x.c != nil {
			return bv(x.c.IsUint64()), cNext
		}
		_, gt := m.bigCmpTerms(x, x)
		_ = gt
		lt, _ := m.bigCmpTerms(&BigNum{c: new(big.Int).SetUint64(^uint64(0))}, x)
		return tv(m.tb.And(m.tb.Not(m.bigIsNeg(x)), m.tb.Not(lt))), cNext
	})
	add("IsInt64", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigGet(a[0])
		if x.c != nil {
			return bv(x.c.IsInt64()), cNext
		}
		hi, _ := m.bigCmpTerms(&BigNum{c: big.NewInt(1<<63 - 1)}, x)
		lo, _ := m.bigCmpTerms(x, &BigNum{c: big.NewInt(-1 << 63)})
		return tv(m.tb.And(m.tb.Not(hi), m.tb.Not(lo))), cNext
	})
	shiftAmt := func(m *M, v Val) uint64 {
		return m.concretize(v, 64, 600, "big.Int shift amount")
	}
	add("Bits", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigAbs(m.bigGet(a[0]))
		if x.c != nil {
			var out []Val
			for _, w := range x.c.Bits() {
				out = append(out, cv(uint64(w)))
			}
			return Val{p: &SliceV{out}}, cNext
		}
		nw := (x.t.w + 63) / 64
		t := m.tb.ZExt(x.t, nw*64)
		k := nw
		for k > 0 && !m.P.looseBits {
			top := m.tb.Extract(t, k*64-1, (k-1)*64)
			if m.decide(m.tb.Not(m.tb.Eq(top, m.tb.C(0, 64)))) {
				break
			}
			k--
		}
		out := make([]Val, k)
		for i := int32(0); i < k; i++ {
			out[i] = tv(m.tb.Extract(t, i*64+63, i*64))
		}
		return Val{p: &SliceV{out}}, cNext
	})
	add("Lsh", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigGet(a[1])
		if amt := a[2].term(); amt != nil {
			if ew := m.tb.effw(amt); ew <= 9 {
				w := x.sw() + 1<<uint(ew) - 1
				t := m.tb.Shl(m.bigS(x, w), m.tb.ZExt(m.tb.Extract(amt, 8, 0), w))
				return m.bigPut(a[0], &BigNum{t: t, signed: true}), cNext
			}
		}
		return m.bigPut(a[0], m.bigLsh(x, shiftAmt(m, a[2]))), cNext
	})
	add("Rsh", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigGet(a[1])
		if a[2].p != nil && x.c == nil && !x.signed {
			// symbolic amount on a nonneg value: one shift term
			amt := m.asT(a[2], 64)
			w := max(x.t.w, 64)
			t := m.tb.LShr(m.tb.ZExt(x.t, w), m.tb.ZExt(amt, w))
			return m.bigPut(a[0], &BigNum{t: m.tb.Extract(t, x.t.w-1, 0)}), cNext
		}
		if amt := a[2].term(); amt != nil && x.c == nil && m.tb.effw(amt) <= 9 && x.t.w >= 10 {
			t := m.tb.AShr(x.t, m.tb.ZExt(m.tb.Extract(amt, 8, 0), x.t.w))
			return m.bigPut(a[0], &BigNum{t: t, signed: true}), cNext
		}
		return m.bigPut(a[0], m.bigRsh(x, shiftAmt(m, a[2]))), cNext
	})
	add("Bit", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigGet(a[0])
		i := m.concretize(a[1], 64, 600, "bit index")
		if x.c != nil {
			return cv(uint64(x.c.Bit(int(i)))), cNext
		}
		w := max(x.sw(), int32(i)+1)
		return tv(m.tb.ZExt(m.tb.Extract(m.bigS(x, w), int32(i), int32(i)), 64)), cNext
	})
	add("SetBit", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x := m.bigGet(a[1])
		i := m.concretize(a[2], 64, 600, "bit index")
		b := m.concretize(a[3], 64, 2, "bit")
		if x.c != nil {
			return m.bigPut(a[0], &BigNum{c: new(big.Int).SetBit(x.c, int(i), uint(b))}), cNext
		}
		one := &BigNum{c: new(big.Int).Lsh(big.NewInt(1), uint(i))}
		if b == 1 {
			return m.bigPut(a[0], m.bigBit('|', x, one)), cNext
		}
		return m.bigPut(a[0], m.bigBit('&', x, &BigNum{c: new(big.Int).Not(one.c)})), cNext
	})
	add("Exp", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		x, y := m.bigGet(a[1]), m.bigGet(a[2])
		var md *BigNum
		if a[3].p != nil {
			md = m.bigGet(a[3])
		}
		if x.c != nil && y.c != nil && (md == nil || md.c != nil) {
			var mm *big.Int
			if md != nil {
				mm = md.c
			}
			return m.bigPut(a[0], &BigNum{c: new(big.Int).Exp(x.c, y.c, mm)}), cNext
		}
		// small symbolic exponent: enumerate
		var e uint64
		if y.c != nil {
			if !y.c.IsUint64() || y.c.Uint64() > 64 {
				unsupported("big exponent")
			}
			e = y.c.Uint64()
		} else {
			e = m.concretize(tv(m.bigLow64(y)), 64, 300, "exponent")
		}
		if x.c != nil && md == nil {
			return m.bigPut(a[0], &BigNum{c: new(big.Int).Exp(x.c, new(big.Int).SetUint64(e), nil)}), cNext
		}
		r := &BigNum{c: big.NewInt(1)}
		for i := uint64(0); i < e; i++ {
			r = m.bigNorm(m.bigMul(r, x))
			if md != nil {
				_, r = m.bigDivMod(r, md)
			}
		}
		return m.bigPut(a[0], r), cNext
	})
	add("Sqrt", b1(func(m *M, x *BigNum) *BigNum { return &BigNum{c: new(big.Int).Sqrt(x.conc("Sqrt"))} }))
	add("ModInverse", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		z := new(big.Int).ModInverse(m.bigGet(a[1]).conc("ModInverse"), m.bigGet(a[2]).conc("ModInverse"))
		if z == nil {
			return Val{}, cNext
		}
		return m.bigPut(a[0], &BigNum{c: z}), cNext
	})
	add("String", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		if a[0].p == nil {
			return sv("<nil>"), cNext
		}
		return m.bigText(m.bigGet(a[0]), 10), cNext
	})
	add("Text", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		if a[0].p == nil {
			return sv("<nil>"), cNext
		}
		return m.bigText(m.bigGet(a[0]), int(m.concretize(a[1], 64, 4, "base"))), cNext
	})
	add("SetString", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		z, ok := new(big.Int).SetString(a[1].cstr(), int(a[2].n))
		if !ok {
			return tuple(Val{}, bv(false)), cNext
		}
		return tuple(m.bigPut(a[0], &BigNum{c: z}), bv(true)), cNext
	})
	add("TrailingZeroBits", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return cv(uint64(m.bigGet(a[0]).conc("TrailingZeroBits").TrailingZeroBits())), cNext
	})
	add("ProbablyPrime", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return bv(m.bigGet(a[0]).conc("ProbablyPrime").ProbablyPrime(20)), cNext
	})
	add("GCD", func(m *M, fr *Frame, a []Val) (Val, ctl) {
		return m.bigPut(a[0], &BigNum{c: new(big.Int).GCD(nil, nil, m.bigGet(a[3]).conc("GCD"), m.bigGet(a[4]).conc("GCD"))}), cNext
	})
}
