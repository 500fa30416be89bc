package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Terms: hash-consed SMT expressions. Sorts: Bool (w==0), BitVec w (w>0), Int (w==-1).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract // u = lo, w = width
	OpZExt
	OpSExt
	OpEq
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpIte
	OpBAnd
	OpBOr
	OpBNot
	OpIAdd
	OpISub
	OpIMul
	OpIDiv
	OpIMod
	OpILe
	OpILt
	OpBV2Int
	OpInt2BV
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "concat", "extract", "zero_extend", "sign_extend", "=", "bvult", "bvule", "bvslt", "bvsle", "ite", "and", "or", "not", "+", "-", "*", "div", "mod", "<=", "<", "bv2nat", "int2bv"}

type Term struct {
	h    uint64
	op   Op
	w    int32
	id   int32
	u    uint64
	b    *big.Int
	name string
	a    [3]*Term
	na   int8
	ew   int32 // cached effective width + 1
	sw   int32 // cached signed width
}

type tkey struct {
	op         Op
	w          int32
	u          uint64
	a0, a1, a2 int32
	s          string
}

type TB struct {
	m        map[tkey]*Term
	next     int32
	True     *Term
	False    *Term
	bytesC   [256]*Term
	sup      map[*Term]supInfo
	canonM   map[*Term]*Term
	canonPre map[string]bool
	tables   map[string]*Term
}

func NewTB() *TB {
	tb := &TB{m: map[tkey]*Term{}, sup: map[*Term]supInfo{}, canonM: map[*Term]*Term{}, canonPre: map[string]bool{}, tables: map[string]*Term{}}
	tb.True = tb.mk(OpConst, 0, 1, nil, "")
	tb.False = tb.mk(OpConst, 0, 0, nil, "")
	for i := range tb.bytesC {
		tb.bytesC[i] = tb.mk(OpConst, 8, uint64(i), nil, "")
	}
	return tb
}

func (tb *TB) mk(op Op, w int32, u uint64, b *big.Int, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, u: u, s: name, a0: -1, a1: -1, a2: -1}
	if b != nil {
		k.s = b.Text(62)
	}
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		}
	}
	if t, ok := tb.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, u: u, b: b, name: name, id: tb.next, na: int8(len(args))}
	copy(t.a[:], args)
	h := uint64(op)*0x9E3779B97F4A7C15 + uint64(uint32(w))
	h = mix64(h ^ u)
	for i := 0; i < len(k.s); i++ {
		h = (h ^ uint64(k.s[i])) * 0x100000001b3
	}
	for _, a := range args {
		h = mix64(h*31 + a.h)
	}
	t.h = h
	tb.next++
	tb.m[k] = t
	return t
}

func mix64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	return x ^ x>>33
}

// after orders terms by structure, so that simplification does not depend on the order in which a worker first built them.
func (a *Term) after(b *Term) bool {
	if a.h != b.h {
		return a.h > b.h
	}
	return a.id > b.id
}

func mask(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tb *TB) C(u uint64, w int32) *Term {
	if w == 8 {
		return tb.bytesC[u&255]
	}
	if w == 0 {
		return tb.Bool(u != 0)
	}
	if w > 64 {
		return tb.mk(OpConst, w, 0, new(big.Int).SetUint64(u), "")
	}
	if w < 0 {
		panic("C on Int")
	}
	return tb.mk(OpConst, w, u&mask(w), nil, "")
}

var bigMaskCache = map[int32]*big.Int{}

func bigMask(w int32) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

// CB makes a constant from any (possibly negative) big integer, truncated to w bits (or Int when w==-1).
func (tb *TB) CB(v *big.Int, w int32) *Term {
	if w == -1 {
		return tb.mk(OpConst, -1, 0, new(big.Int).Set(v), "")
	}
	x := v
	if v.Sign() < 0 || v.BitLen() > int(w) {
		x = new(big.Int).And(v, bigMask(w))
	}
	if w <= 64 {
		return tb.C(x.Uint64(), w)
	}
	return tb.mk(OpConst, w, 0, new(big.Int).Set(x), "")
}

func (tb *TB) IntC(v int64) *Term { return tb.CB(big.NewInt(v), -1) }

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (t *Term) isC() bool { return t.op == OpConst }

// unsigned value of const
func (t *Term) cbig() *big.Int {
	if t.b != nil {
		return t.b
	}
	return new(big.Int).SetUint64(t.u)
}

func (t *Term) csigned() *big.Int {
	v := t.cbig()
	if t.w > 0 && v.Bit(int(t.w)-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
	}
	return v
}

func (t *Term) isZero() bool {
	return t.op == OpConst && t.w != 0 && ((t.b == nil && t.u == 0) || (t.b != nil && t.b.Sign() == 0))
}
func (t *Term) isOne() bool {
	return t.op == OpConst && t.w != 0 && ((t.b == nil && t.u == 1) || (t.b != nil && t.b.IsInt64() && t.b.Int64() == 1))
}
func (t *Term) isOnes() bool {
	if t.op != OpConst || t.w <= 0 {
		return false
	}
	if t.b == nil {
		return t.u == mask(t.w)
	}
	return t.b.Cmp(bigMask(t.w)) == 0
}

func (tb *TB) Var(name string, w int32) *Term { return tb.mk(OpVar, w, 0, nil, name) }

func sx(u uint64, w int32) int64 {
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

// ---- boolean ----
func (tb *TB) Not(a *Term) *Term {
	if a.isC() {
		return tb.Bool(a.u == 0)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return tb.mk(OpBNot, 0, 0, nil, "", a)
}
func (tb *TB) And(a, b *Term) *Term {
	if a == tb.False || b == tb.False {
		return tb.False
	}
	if a == tb.True || a == b {
		return b
	}
	if b == tb.True {
		return a
	}
	if (a.op == OpBNot && a.a[0] == b) || (b.op == OpBNot && b.a[0] == a) {
		return tb.False
	}
	if a.after(b) {
		a, b = b, a
	}
	return tb.mk(OpBAnd, 0, 0, nil, "", a, b)
}
func (tb *TB) Or(a, b *Term) *Term {
	if a == tb.True || b == tb.True {
		return tb.True
	}
	if a == tb.False || a == b {
		return b
	}
	if b == tb.False {
		return a
	}
	if (a.op == OpBNot && a.a[0] == b) || (b.op == OpBNot && b.a[0] == a) {
		return tb.True
	}
	if a.after(b) {
		a, b = b, a
	}
	return tb.mk(OpBOr, 0, 0, nil, "", a, b)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c == tb.True || a == b {
		return a
	}
	if c == tb.False {
		return b
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite sort mismatch %d %d", a.w, b.w))
	}
	if c.op == OpBNot {
		return tb.Ite(c.a[0], b, a)
	}
	if a.w == 0 {
		if a == tb.True {
			return tb.Or(c, b)
		}
		if a == tb.False {
			return tb.And(tb.Not(c), b)
		}
		if b == tb.True {
			return tb.Or(tb.Not(c), a)
		}
		if b == tb.False {
			return tb.And(c, a)
		}
	}
	if a.op == OpIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OpIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return tb.mk(OpIte, a.w, 0, nil, "", c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq sort mismatch %d %d: %s %s", a.w, b.w, a, b))
	}
	if a.isC() && b.isC() {
		return tb.False // distinct hash-consed consts of the same sort
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b == tb.True {
			return a
		}
		if b == tb.False {
			return tb.Not(a)
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OpIte:
			// push equality with const into ite of consts
			x, y := a.a[1], a.a[2]
			if x.isC() || y.isC() {
				return tb.Ite(a.a[0], tb.Eq(x, b), tb.Eq(y, b))
			}
		case OpZExt:
			x := a.a[0]
			bv := b.cbig()
			if bv.BitLen() > int(x.w) {
				return tb.False
			}
			return tb.Eq(x, tb.CB(bv, x.w))
		case OpConcat:
			hi, lo := a.a[0], a.a[1]
			return tb.And(tb.Eq(hi, tb.Extract(b, b.w-1, lo.w)), tb.Eq(lo, tb.Extract(b, lo.w-1, 0)))
		case OpNot:
			return tb.Eq(a.a[0], tb.BNot(b))
		case OpXor:
			if a.a[1].isC() {
				return tb.Eq(a.a[0], tb.Xor(a.a[1], b))
			}
		case OpAdd:
			if a.a[1].isC() {
				return tb.Eq(a.a[0], tb.Sub(b, a.a[1]))
			}
		case OpIAdd:
			if a.a[1].isC() {
				return tb.Eq(a.a[0], tb.ISub(b, a.a[1]))
			}
		}
	} else {
		if a.op == OpConcat && b.op == OpConcat && a.a[1].w == b.a[1].w {
			return tb.And(tb.Eq(a.a[0], b.a[0]), tb.Eq(a.a[1], b.a[1]))
		}
		if a.op == OpZExt && b.op == OpZExt && a.a[0].w == b.a[0].w {
			return tb.Eq(a.a[0], b.a[0])
		}
		if a.op == OpBV2Int && b.op == OpBV2Int {
			x, y := a.a[0], b.a[0]
			if x.w < y.w {
				x = tb.ZExt(x, y.w)
			} else if y.w < x.w {
				y = tb.ZExt(y, x.w)
			}
			return tb.Eq(x, y)
		}
	}
	if a.w == -1 && a.op == OpBV2Int && b.isC() {
		if b.b.Sign() < 0 || b.b.BitLen() > int(a.a[0].w) {
			return tb.False
		}
		return tb.Eq(a.a[0], tb.CB(b.b, a.a[0].w))
	}
	if !b.isC() && a.w > 0 {
		if x, y, ok := tb.linCancel(a, b, false); ok {
			return tb.Eq(x, y)
		}
	}
	if !b.isC() && a.after(b) {
		a, b = b, a
	}
	return tb.mk(OpEq, 0, 0, nil, "", a, b)
}

// ---- bit-vectors ----
func (tb *TB) Add(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.isZero() {
			return a
		}
		if a.isC() {
			if a.w <= 64 {
				return tb.C(a.u+b.u, a.w)
			}
			return tb.CB(new(big.Int).Add(a.cbig(), b.cbig()), a.w)
		}
		if a.op == OpAdd && a.a[1].isC() {
			return tb.Add(a.a[0], tb.Add(a.a[1], b))
		}
	} else if a.after(b) {
		a, b = b, a
	}
	if !b.isC() {
		// (x - b) + b = x
		if a.op == OpSub && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OpSub && b.a[1] == a {
			return b.a[0]
		}
		if r := tb.linJoin(a, b, false); r != nil {
			return r
		}
	}
	return tb.mk(OpAdd, a.w, 0, nil, "", a, b)
}

// linear forms: t = sum coef*atom + k (mod 2^w), w <= 64
type linF struct {
	atoms []*Term
	coef  []uint64
	k     uint64
	n     int
}

func (l *linF) add(t *Term, c uint64) {
	for i, a := range l.atoms {
		if a == t {
			l.coef[i] += c
			return
		}
	}
	l.atoms = append(l.atoms, t)
	l.coef = append(l.coef, c)
}

func (tb *TB) lin(t *Term, c uint64, l *linF) {
	l.n++
	if l.n > 40 {
		l.add(t, c)
		return
	}
	switch t.op {
	case OpConst:
		l.k += t.u * c
		return
	case OpAdd:
		tb.lin(t.a[0], c, l)
		tb.lin(t.a[1], c, l)
		return
	case OpSub:
		tb.lin(t.a[0], c, l)
		tb.lin(t.a[1], -c, l)
		return
	case OpNeg:
		tb.lin(t.a[0], -c, l)
		return
	case OpMul:
		if t.a[1].isC() {
			tb.lin(t.a[0], c*t.a[1].u, l)
			return
		}
	case OpZExt:
		x := t.a[0]
		if x.op == OpAdd && tb.effw(x.a[0]) < x.w && tb.effw(x.a[1]) < x.w {
			tb.lin(tb.ZExt(x.a[0], t.w), c, l)
			tb.lin(tb.ZExt(x.a[1], t.w), c, l)
			return
		}
		if x.op == OpMul && x.a[1].isC() && tb.effw(x.a[0])+tb.effw(x.a[1]) <= x.w {
			tb.lin(tb.ZExt(x.a[0], t.w), c*x.a[1].u, l)
			return
		}
	}
	l.add(t, c)
}

// linJoin returns a+b (or a-b) in merged form when the two share an atom or both have constants, else nil.
func (tb *TB) linJoin(a, b *Term, sub bool) *Term {
	if a.w > 64 || a.w < 8 {
		return nil
	}
	lop := func(t *Term) bool {
		switch t.op {
		case OpAdd, OpSub, OpNeg, OpMul:
			return true
		case OpZExt:
			return t.a[0].op == OpAdd || t.a[0].op == OpMul
		}
		return false
	}
	if !lop(a) && !lop(b) {
		return nil
	}
	l := &linF{}
	tb.lin(a, 1, l)
	na, ka := len(l.atoms), l.k
	l2 := &linF{}
	tb.lin(b, 1, l2)
	if len(l.atoms)+len(l2.atoms) > 12 {
		return nil
	}
	shared := ka != 0 && l2.k != 0
	_ = na
	for _, x := range l2.atoms {
		for _, y := range l.atoms {
			if x == y {
				shared = true
			}
		}
	}
	if !shared {
		return nil
	}
	for i, x := range l2.atoms {
		c := l2.coef[i]
		if sub {
			c = -c
		}
		l.add(x, c)
	}
	if sub {
		l.k -= l2.k
	} else {
		l.k += l2.k
	}
	return tb.linBuild(l, a.w)
}

func (tb *TB) linBuild(l *linF, w int32) *Term {
	var pos, neg *Term
	for i, x := range l.atoms {
		c := l.coef[i] & mask(w)
		if c == 0 {
			continue
		}
		if sx(c, w) < 0 && c != 1<<uint(w-1) {
			t := tb.Mul(x, tb.C(-c, w))
			if neg == nil {
				neg = t
			} else {
				neg = tb.addRaw(neg, t)
			}
		} else {
			t := tb.Mul(x, tb.C(c, w))
			if pos == nil {
				pos = t
			} else {
				pos = tb.addRaw(pos, t)
			}
		}
	}
	r := pos
	if neg != nil {
		if r == nil {
			if l.k&mask(w) != 0 {
				return tb.mk(OpSub, w, 0, nil, "", tb.C(l.k, w), neg)
			}
			return tb.Neg(neg)
		}
		r = tb.mk(OpSub, w, 0, nil, "", pos, neg)
	}
	if r == nil {
		return tb.C(l.k, w)
	}
	if l.k&mask(w) != 0 {
		r = tb.mk(OpAdd, w, 0, nil, "", r, tb.C(l.k, w))
	}
	return r
}

func (tb *TB) addRaw(a, b *Term) *Term {
	if a.after(b) {
		a, b = b, a
	}
	return tb.mk(OpAdd, a.w, 0, nil, "", a, b)
}

func (tb *TB) Sub(a, b *Term) *Term {
	if a == b {
		return tb.CB(new(big.Int), a.w)
	}
	if b.isC() {
		return tb.Add(a, tb.Neg(b))
	}
	if a.op == OpAdd {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
	}
	if r := tb.linJoin(a, b, true); r != nil {
		return r
	}
	return tb.mk(OpSub, a.w, 0, nil, "", a, b)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isC() {
		if a.w <= 64 {
			return tb.C(-a.u, a.w)
		}
		return tb.CB(new(big.Int).Neg(a.cbig()), a.w)
	}
	if a.op == OpNeg {
		return a.a[0]
	}
	return tb.mk(OpNeg, a.w, 0, nil, "", a)
}

func (tb *TB) Mul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			if a.w <= 64 {
				return tb.C(a.u*b.u, a.w)
			}
			return tb.CB(new(big.Int).Mul(a.cbig(), b.cbig()), a.w)
		}
		if b.isZero() {
			return b
		}
		if b.isOne() {
			return a
		}
		bb := b.cbig()
		if tz := bb.TrailingZeroBits(); int(tz)+1 == bb.BitLen() {
			return tb.Shl(a, tb.CB(big.NewInt(int64(tz)), a.w))
		}
	} else if a.after(b) {
		a, b = b, a
	}
	return tb.mk(OpMul, a.w, 0, nil, "", a, b)
}

// leading-zero trimmed width: number of low bits that may be non-zero
func (tb *TB) effw(t *Term) int32 {
	if t.ew == 0 {
		t.ew = tb.effw0(t) + 1
	}
	return t.ew - 1
}

func (tb *TB) effw0(t *Term) int32 {
	switch t.op {
	case OpConst:
		if t.w > 0 {
			return int32(t.cbig().BitLen())
		}
	case OpZExt:
		return tb.effw(t.a[0])
	case OpConcat:
		if t.a[0].isZero() {
			return tb.effw(t.a[1])
		}
		e := tb.effw(t.a[0])
		if e == 0 {
			return tb.effw(t.a[1])
		}
		return e + t.a[1].w
	case OpIte:
		x, y := tb.effw(t.a[1]), tb.effw(t.a[2])
		if x > y {
			return x
		}
		return y
	case OpUDiv:
		e := tb.effw(t.a[0])
		if t.a[1].isC() && !t.a[1].isZero() {
			if e -= tb.effw(t.a[1]) - 1; e < 0 {
				e = 0
			}
		}
		return e
	case OpURem:
		if t.a[1].isC() && !t.a[1].isZero() {
			if x := tb.effw(t.a[1]); x < tb.effw(t.a[0]) {
				return x
			}
		}
		return tb.effw(t.a[0])
	case OpAnd:
		x, y := tb.effw(t.a[0]), tb.effw(t.a[1])
		if x < y {
			return x
		}
		return y
	case OpMul:
		x := tb.effw(t.a[0]) + tb.effw(t.a[1])
		if x < t.w {
			return x
		}
	case OpAdd:
		x, y := tb.effw(t.a[0]), tb.effw(t.a[1])
		if x < y {
			x = y
		}
		if x+1 < t.w {
			return x + 1
		}
	}
	return t.w
}

// sw: the value, read as signed, fits in that many bits (two's complement), and no sum or product inside wrapped.
func (tb *TB) swid(t *Term) int32 {
	if t.sw == 0 {
		t.sw = tb.swid0(t)
	}
	return t.sw
}

func (tb *TB) swid0(t *Term) int32 {
	max := func(a, b *Term) int32 {
		x, y := tb.swid(a), tb.swid(b)
		if x > y {
			return x
		}
		return y
	}
	cap := func(x int32) int32 {
		if x > t.w {
			return t.w
		}
		return x
	}
	switch t.op {
	case OpConst:
		c := t.csigned()
		if c.Sign() < 0 {
			c = new(big.Int).Not(c)
		}
		return cap(int32(c.BitLen()) + 1)
	case OpSExt:
		return tb.swid(t.a[0])
	case OpAdd, OpSub:
		return cap(max(t.a[0], t.a[1]) + 1)
	case OpNeg:
		return cap(tb.swid(t.a[0]) + 1)
	case OpMul:
		return cap(tb.swid(t.a[0]) + tb.swid(t.a[1]))
	case OpSDiv:
		if t.a[1].isC() && t.a[1].csigned().Sign() > 0 {
			return tb.swid(t.a[0])
		}
	case OpIte:
		return max(t.a[1], t.a[2])
	}
	return cap(tb.effw(t) + 1)
}

// smulOf matches x*c without signed wrap-around.
func (tb *TB) smulOf(t *Term) (*Term, *big.Int) {
	if t.op == OpMul && t.a[1].isC() && tb.swid(t.a[0])+tb.swid(t.a[1]) <= t.w {
		return t.a[0], t.a[1].csigned()
	}
	return nil, nil
}

// mulOf matches x*c without wrap-around (c>0 constant).
func (tb *TB) mulOf(t *Term) (*Term, *big.Int) {
	switch {
	case t.op == OpMul && t.a[1].isC() && tb.effw(t.a[0])+tb.effw(t.a[1]) <= t.w:
		return t.a[0], t.a[1].cbig()
	case t.op == OpZExt:
		x, c := tb.mulOf(t.a[0])
		if x != nil {
			return tb.ZExt(x, t.w), c
		}
	}
	return nil, nil
}

// divMul splits t (no wrap-around) into q*c + r with r the part not known to be a multiple of c.
func (tb *TB) divMul(t *Term, c *big.Int) (q, r *Term, ok bool) {
	if x, k := tb.mulOf(t); x != nil {
		m := new(big.Int)
		d, _ := new(big.Int).QuoRem(k, c, m)
		if m.Sign() == 0 {
			return tb.Mul(x, tb.CB(d, t.w)), tb.CB(new(big.Int), t.w), true
		}
		return nil, nil, false
	}
	if t.op == OpZExt {
		q, r, ok = tb.divMul(t.a[0], c)
		if ok {
			return tb.ZExt(q, t.w), tb.ZExt(r, t.w), true
		}
		return
	}
	if t.op == OpAdd && tb.effw(t) < t.w || t.op == OpAdd && tb.effw(t.a[0]) < t.w && tb.effw(t.a[1]) < t.w {
		for i := 0; i < 2; i++ {
			if q, r, ok = tb.divMul(t.a[i], c); ok {
				return q, tb.Add(r, t.a[1-i]), true
			}
		}
	}
	return nil, nil, false
}

func (tb *TB) UDiv(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			if a.w <= 64 {
				return tb.C(a.u/b.u, a.w)
			}
			return tb.CB(new(big.Int).Quo(a.cbig(), b.cbig()), a.w)
		}
		if b.isOne() {
			return a
		}
		bb := b.cbig()
		if tz := bb.TrailingZeroBits(); int(tz)+1 == bb.BitLen() {
			return tb.LShr(a, tb.CB(big.NewInt(int64(tz)), a.w))
		}
		if q, r, ok := tb.divMul(a, bb); ok {
			return tb.Add(q, tb.UDiv(r, b))
		}
		ea := tb.effw(a)
		eb := tb.effw(b)
		if ea < eb {
			return tb.CB(new(big.Int), a.w)
		}
		if ea < a.w {
			return tb.ZExt(tb.UDiv(tb.Extract(a, ea-1, 0), tb.Extract(b, ea-1, 0)), a.w)
		}
	}
	return tb.mk(OpUDiv, a.w, 0, nil, "", a, b)
}
func (tb *TB) URem(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			if a.w <= 64 {
				return tb.C(a.u%b.u, a.w)
			}
			return tb.CB(new(big.Int).Rem(a.cbig(), b.cbig()), a.w)
		}
		bb := b.cbig()
		if tz := bb.TrailingZeroBits(); int(tz)+1 == bb.BitLen() {
			if tz == 0 {
				return tb.CB(new(big.Int), a.w)
			}
			return tb.ZExt(tb.Extract(a, int32(tz)-1, 0), a.w)
		}
		if _, r, ok := tb.divMul(a, bb); ok {
			return tb.URem(r, b)
		}
		ea := tb.effw(a)
		if ea < tb.effw(b) {
			return a
		}
		if ea < a.w {
			return tb.ZExt(tb.URem(tb.Extract(a, ea-1, 0), tb.Extract(b, ea-1, 0)), a.w)
		}
	}
	return tb.mk(OpURem, a.w, 0, nil, "", a, b)
}
func (tb *TB) SDiv(a, b *Term) *Term {
	if a.isC() && b.isC() && !b.isZero() {
		return tb.CB(new(big.Int).Quo(a.csigned(), b.csigned()), a.w)
	}
	if b.isC() && b.csigned().Sign() > 0 && tb.effw(a) < a.w {
		return tb.UDiv(a, b)
	}
	if b.isC() && b.csigned().Sign() > 0 {
		if x, k := tb.smulOf(a); x != nil {
			mm := new(big.Int)
			d, _ := new(big.Int).QuoRem(k, b.csigned(), mm)
			if mm.Sign() == 0 {
				_ = d
				return tb.Mul(x, tb.CB(d, a.w))
			}
		}
	}
	return tb.mk(OpSDiv, a.w, 0, nil, "", a, b)
}
func (tb *TB) SRem(a, b *Term) *Term {
	if a.isC() && b.isC() && !b.isZero() {
		return tb.CB(new(big.Int).Rem(a.csigned(), b.csigned()), a.w)
	}
	if b.isC() && b.csigned().Sign() > 0 && tb.effw(a) < a.w {
		return tb.URem(a, b)
	}
	if b.isC() && b.csigned().Sign() > 0 {
		if x, k := tb.smulOf(a); x != nil {
			mm := new(big.Int)
			d, _ := new(big.Int).QuoRem(k, b.csigned(), mm)
			if mm.Sign() == 0 {
				_ = d
				return tb.CB(new(big.Int), a.w)
			}
		}
	}
	return tb.mk(OpSRem, a.w, 0, nil, "", a, b)
}

// piecewise decomposition, most significant first
func (tb *TB) pieces(t *Term, out []*Term) []*Term {
	switch t.op {
	case OpConcat:
		out = tb.pieces(t.a[0], out)
		return tb.pieces(t.a[1], out)
	case OpZExt:
		out = append(out, tb.CB(new(big.Int), t.w-t.a[0].w))
		return tb.pieces(t.a[0], out)
	}
	return append(out, t)
}

func hasPieces(t *Term) bool { return t.op == OpConcat || t.op == OpZExt }

// bitwise op with piecewise simplification
func (tb *TB) bitop(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		if a.w <= 64 {
			switch op {
			case OpAnd:
				return tb.C(a.u&b.u, a.w)
			case OpOr:
				return tb.C(a.u|b.u, a.w)
			default:
				return tb.C(a.u^b.u, a.w)
			}
		}
		r := new(big.Int)
		switch op {
		case OpAnd:
			r.And(a.cbig(), b.cbig())
		case OpOr:
			r.Or(a.cbig(), b.cbig())
		default:
			r.Xor(a.cbig(), b.cbig())
		}
		return tb.CB(r, a.w)
	}
	if a.isC() {
		a, b = b, a
	}
	if a == b {
		if op == OpXor {
			return tb.CB(new(big.Int), a.w)
		}
		return a
	}
	if b.isC() {
		if b.isZero() {
			if op == OpAnd {
				return b
			}
			return a
		}
		if b.isOnes() {
			switch op {
			case OpAnd:
				return a
			case OpOr:
				return b
			default:
				return tb.BNot(a)
			}
		}
		// constant mask: split into runs of equal bits
		if op == OpAnd || op == OpOr {
			bb := b.cbig()
			runs := 1
			for i := 1; i < int(b.w); i++ {
				if bb.Bit(i) != bb.Bit(i-1) {
					runs++
				}
			}
			if runs <= 5 {
				var res *Term
				i := 0
				for i < int(b.w) {
					j := i
					for j+1 < int(b.w) && bb.Bit(j+1) == bb.Bit(i) {
						j++
					}
					var piece *Term
					bit := bb.Bit(i)
					if (op == OpAnd) == (bit == 1) {
						piece = tb.Extract(a, int32(j), int32(i))
					} else {
						piece = tb.Extract(b, int32(j), int32(i))
					}
					if res == nil {
						res = piece
					} else {
						res = tb.Concat(piece, res)
					}
					i = j + 1
				}
				return res
			}
		}
	}
	if hasPieces(a) || hasPieces(b) {
		// cut at all piece boundaries if it makes at least one zero-aligned piece
		pa := tb.pieces(a, nil)
		pb := tb.pieces(b, nil)
		anyConst := false
		for _, p := range pa {
			anyConst = anyConst || p.isC()
		}
		for _, p := range pb {
			anyConst = anyConst || p.isC()
		}
		if anyConst && len(pa)+len(pb) < 80 {
			cuts := map[int32]bool{}
			pos := a.w
			for _, p := range pa {
				pos -= p.w
				cuts[pos] = true
			}
			pos = a.w
			for _, p := range pb {
				pos -= p.w
				cuts[pos] = true
			}
			var res *Term
			hi := a.w - 1
			for i := a.w - 1; i >= 0; i-- {
				if cuts[i] {
					x := tb.bitop(op, tb.Extract(a, hi, i), tb.Extract(b, hi, i))
					if res == nil {
						res = x
					} else {
						res = tb.Concat(res, x)
					}
					hi = i - 1
				}
			}
			return res
		}
	}
	if !b.isC() && a.after(b) {
		a, b = b, a
	}
	return tb.mk(op, a.w, 0, nil, "", a, b)
}

func (tb *TB) BAnd(a, b *Term) *Term { return tb.bitop(OpAnd, a, b) }
func (tb *TB) BOr(a, b *Term) *Term  { return tb.bitop(OpOr, a, b) }
func (tb *TB) Xor(a, b *Term) *Term  { return tb.bitop(OpXor, a, b) }
func (tb *TB) BNot(a *Term) *Term {
	if a.isC() {
		if a.w <= 64 {
			return tb.C(^a.u, a.w)
		}
		return tb.CB(new(big.Int).Xor(a.cbig(), bigMask(a.w)), a.w)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return tb.mk(OpNot, a.w, 0, nil, "", a)
}

func (tb *TB) Extract(a *Term, hi, lo int32) *Term {
	w := hi - lo + 1
	if w <= 0 || lo < 0 || hi >= a.w {
		panic(fmt.Sprintf("bad extract %d %d of w=%d", hi, lo, a.w))
	}
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		if a.b == nil {
			return tb.C(a.u>>uint(lo), w)
		}
		return tb.CB(new(big.Int).Rsh(a.b, uint(lo)), w)
	case OpExtract:
		return tb.Extract(a.a[0], hi+int32(a.u), lo+int32(a.u))
	case OpConcat:
		l := a.a[1]
		if hi < l.w {
			return tb.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return tb.Extract(a.a[0], hi-l.w, lo-l.w)
		}
		return tb.Concat(tb.Extract(a.a[0], hi-l.w, 0), tb.Extract(l, l.w-1, lo))
	case OpZExt:
		x := a.a[0]
		if hi < x.w {
			return tb.Extract(x, hi, lo)
		}
		if lo >= x.w {
			return tb.CB(new(big.Int), w)
		}
		return tb.ZExt(tb.Extract(x, x.w-1, lo), w)
	case OpSExt:
		x := a.a[0]
		if hi < x.w {
			return tb.Extract(x, hi, lo)
		}
		if lo == 0 {
			return tb.SExt(x, w)
		}
	case OpAnd, OpOr, OpXor:
		if !a.a[0].isC() || !a.a[1].isC() {
			return tb.bitop(a.op, tb.Extract(a.a[0], hi, lo), tb.Extract(a.a[1], hi, lo))
		}
	case OpNot:
		return tb.BNot(tb.Extract(a.a[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := tb.Extract(a.a[0], hi, 0), tb.Extract(a.a[1], hi, 0)
			switch a.op {
			case OpAdd:
				return tb.Add(x, y)
			case OpSub:
				return tb.Sub(x, y)
			default:
				return tb.Mul(x, y)
			}
		}
	case OpNeg:
		if lo == 0 {
			return tb.Neg(tb.Extract(a.a[0], hi, 0))
		}
	case OpIte:
		x, y := a.a[1], a.a[2]
		if x.isC() || y.isC() || hasPieces(x) || hasPieces(y) {
			return tb.Ite(a.a[0], tb.Extract(x, hi, lo), tb.Extract(y, hi, lo))
		}
	case OpInt2BV:
		if lo == 0 {
			return tb.Int2BV(a.a[0], w)
		}
	}
	return tb.mk(OpExtract, w, uint64(lo), nil, "", a)
}

func (tb *TB) Concat(a, b *Term) *Term {
	if a.isC() && b.isC() {
		if a.w+b.w <= 64 {
			return tb.C(a.u<<uint(b.w)|b.u, a.w+b.w)
		}
		v := new(big.Int).Lsh(a.cbig(), uint(b.w))
		v.Or(v, b.cbig())
		return tb.CB(v, a.w+b.w)
	}
	if a.isZero() {
		return tb.ZExt(b, a.w+b.w)
	}
	// adjacent extracts merge
	if x, ok := tb.joinExtract(a, b); ok {
		return x
	}
	if b.op == OpConcat {
		// right-assoc: try merging a with head of b
		if x, ok := tb.joinExtract(a, b.a[0]); ok {
			return tb.Concat(x, b.a[1])
		}
		if a.isC() && b.a[0].isC() {
			return tb.Concat(tb.Concat(a, b.a[0]), b.a[1])
		}
	}
	if a.op == OpConcat {
		return tb.Concat(a.a[0], tb.Concat(a.a[1], b))
	}
	if a.op == OpZExt {
		return tb.ZExt(tb.Concat(a.a[0], b), a.w+b.w)
	}
	if b.op == OpZExt {
		// normalise zext inside concat to explicit const piece
		z := tb.CB(new(big.Int), b.w-b.a[0].w)
		inner := tb.mk(OpConcat, b.w, 0, nil, "", z, b.a[0])
		if a.isC() {
			return tb.Concat(tb.Concat(a, z), b.a[0])
		}
		return tb.mk(OpConcat, a.w+b.w, 0, nil, "", a, inner)
	}
	return tb.mk(OpConcat, a.w+b.w, 0, nil, "", a, b)
}

func (tb *TB) joinExtract(a, b *Term) (*Term, bool) {
	if b.op == OpExtract {
		base := b.a[0]
		if a.op == OpExtract && a.a[0] == base && a.u == b.u+uint64(b.w) {
			return tb.Extract(base, int32(a.u)+a.w-1, int32(b.u)), true
		}
	}
	// the low part may have been rewritten when it was extracted
	if a.op == OpExtract && int32(a.u) >= b.w && !b.isC() && tb.Extract(a.a[0], int32(a.u)-1, int32(a.u)-b.w) == b {
		return tb.Extract(a.a[0], int32(a.u)+a.w-1, int32(a.u)-b.w), true
	}
	return nil, false
}

func (tb *TB) ZExt(a *Term, w int32) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext shrink")
	}
	switch a.op {
	case OpConst:
		return tb.CB(a.cbig(), w)
	case OpZExt:
		return tb.ZExt(a.a[0], w)
	case OpConcat:
		if a.a[0].isZero() {
			return tb.ZExt(a.a[1], w)
		}
	case OpAdd:
		// a sum that cannot wrap
		if x, y := a.a[0], a.a[1]; y.isC() && w <= 64 {
			if e, f := tb.effw(x), tb.effw(y); e < a.w && f < a.w {
				return tb.Add(tb.ZExt(x, w), tb.ZExt(y, w))
			}
		}
	}
	return tb.mk(OpZExt, w, 0, nil, "", a)
}
func (tb *TB) SExt(a *Term, w int32) *Term {
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return tb.CB(a.csigned(), w)
	case OpZExt:
		return tb.ZExt(a.a[0], w)
	case OpSExt:
		return tb.SExt(a.a[0], w)
	case OpConcat:
		if a.a[0].isZero() {
			return tb.ZExt(a, w)
		}
	case OpIte:
		if a.a[1].isC() && a.a[2].isC() {
			return tb.Ite(a.a[0], tb.SExt(a.a[1], w), tb.SExt(a.a[2], w))
		}
	}
	return tb.mk(OpSExt, w, 0, nil, "", a)
}

func (tb *TB) shiftAmt(b *Term) (int32, bool) {
	if !b.isC() {
		return 0, false
	}
	v := b.cbig()
	if v.BitLen() > 30 {
		return 1 << 30, true
	}
	return int32(v.Int64()), true
}

func (tb *TB) Shl(a, b *Term) *Term {
	if n, ok := tb.shiftAmt(b); ok {
		if n == 0 {
			return a
		}
		if n >= a.w {
			return tb.CB(new(big.Int), a.w)
		}
		return tb.Concat(tb.Extract(a, a.w-1-n, 0), tb.CB(new(big.Int), n))
	}
	if a.isZero() {
		return a
	}
	return tb.mk(OpShl, a.w, 0, nil, "", a, b)
}
func (tb *TB) LShr(a, b *Term) *Term {
	if n, ok := tb.shiftAmt(b); ok {
		if n == 0 {
			return a
		}
		if n >= a.w {
			return tb.CB(new(big.Int), a.w)
		}
		return tb.ZExt(tb.Extract(a, a.w-1, n), a.w)
	}
	if a.isZero() {
		return a
	}
	return tb.mk(OpLShr, a.w, 0, nil, "", a, b)
}
func (tb *TB) AShr(a, b *Term) *Term {
	if n, ok := tb.shiftAmt(b); ok {
		if n == 0 {
			return a
		}
		if n >= a.w {
			n = a.w - 1
		}
		return tb.SExt(tb.Extract(a, a.w-1, n), a.w)
	}
	if a.isZero() {
		return a
	}
	return tb.mk(OpAShr, a.w, 0, nil, "", a, b)
}

func (tb *TB) ULt(a, b *Term) *Term {
	if a == b || b.isZero() {
		return tb.False
	}
	if a.isC() && b.isC() {
		if a.w <= 64 {
			return tb.Bool(a.u < b.u)
		}
		return tb.Bool(a.cbig().Cmp(b.cbig()) < 0)
	}
	if b.isOne() {
		return tb.Eq(a, tb.CB(new(big.Int), a.w))
	}
	if a.isOnes() {
		return tb.False
	}
	if b.isC() {
		e := tb.effw(a)
		if int(e) < b.cbig().BitLen() {
			return tb.True
		}
		if e < a.w && e > 0 {
			return tb.ULt(tb.Extract(a, e-1, 0), tb.Extract(b, e-1, 0))
		}
		if a.op == OpIte && a.a[1].isC() && a.a[2].isC() {
			return tb.Ite(a.a[0], tb.ULt(a.a[1], b), tb.ULt(a.a[2], b))
		}
	} else if a.isC() {
		e := tb.effw(b)
		if int(e) < a.cbig().BitLen() {
			return tb.False
		}
		if e < a.w && e > 0 {
			return tb.ULt(tb.Extract(a, e-1, 0), tb.Extract(b, e-1, 0))
		}
	} else if a.op == OpZExt && b.op == OpZExt {
		e := a.a[0].w
		if b.a[0].w > e {
			e = b.a[0].w
		}
		if e < a.w {
			return tb.ULt(tb.Extract(a, e-1, 0), tb.Extract(b, e-1, 0))
		}
	}
	if x, y, ok := tb.linCancel(a, b, true); ok {
		return tb.ULt(x, y)
	}
	return tb.mk(OpULt, 0, 0, nil, "", a, b)
}

// linCancel removes the common part of two sums; order-preserving only if nat (neither sum wraps).
func (tb *TB) linCancel(a, b *Term, nat bool) (*Term, *Term, bool) {
	if a.w > 64 || a.w < 8 || a.op != OpAdd && b.op != OpAdd && (a.op != OpZExt || b.op != OpZExt) {
		return nil, nil, false
	}
	if nat && (tb.effw(a) >= a.w || tb.effw(b) >= a.w) {
		return nil, nil, false
	}
	l, l2 := &linF{}, &linF{}
	tb.lin(a, 1, l)
	tb.lin(b, 1, l2)
	if len(l.atoms)+len(l2.atoms) > 12 {
		return nil, nil, false
	}
	ok := false
	min := func(x, y uint64) uint64 {
		if x < y {
			return x
		}
		return y
	}
	if l.k != 0 && l2.k != 0 {
		c := min(l.k, l2.k)
		l.k -= c
		l2.k -= c
		ok = true
	}
	for i, x := range l2.atoms {
		for j, y := range l.atoms {
			if x == y {
				c := min(l.coef[j], l2.coef[i])
				if c != 0 {
					l.coef[j] -= c
					l2.coef[i] -= c
					ok = true
				}
			}
		}
	}
	if !ok {
		return nil, nil, false
	}
	mkf := func(l *linF) *Term {
		var r *Term
		for i, x := range l.atoms {
			c := l.coef[i] & mask(a.w)
			if c == 0 {
				continue
			}
			t := tb.Mul(x, tb.C(c, a.w))
			if r == nil {
				r = t
			} else {
				r = tb.addRaw(r, t)
			}
		}
		if r == nil {
			return tb.C(l.k, a.w)
		}
		if l.k&mask(a.w) != 0 {
			r = tb.mk(OpAdd, a.w, 0, nil, "", r, tb.C(l.k, a.w))
		}
		return r
	}
	return mkf(l), mkf(l2), true
}
func (tb *TB) ULe(a, b *Term) *Term { return tb.Not(tb.ULt(b, a)) }
func (tb *TB) SLt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.isC() && b.isC() {
		if a.w <= 64 {
			return tb.Bool(sx(a.u, a.w) < sx(b.u, b.w))
		}
		return tb.Bool(a.csigned().Cmp(b.csigned()) < 0)
	}
	na := tb.effw(a) < a.w
	nb := tb.effw(b) < b.w
	if na && nb {
		return tb.ULt(a, b)
	}
	if a.op == OpIte && b.isC() && a.a[1].isC() && a.a[2].isC() {
		return tb.Ite(a.a[0], tb.SLt(a.a[1], b), tb.SLt(a.a[2], b))
	}
	if b.op == OpIte && a.isC() && b.a[1].isC() && b.a[2].isC() {
		return tb.Ite(b.a[0], tb.SLt(a, b.a[1]), tb.SLt(a, b.a[2]))
	}
	if a.op == OpIte && b.isC() && (a.a[1].isC() || a.a[2].isC()) {
		return tb.Ite(a.a[0], tb.SLt(a.a[1], b), tb.SLt(a.a[2], b))
	}
	if na && b.isC() && b.csigned().Sign() < 0 {
		return tb.False
	}
	if nb && a.isC() && a.csigned().Sign() < 0 {
		return tb.True
	}
	if a.w >= 8 && a.w <= 64 && tb.swid(a) < a.w-1 && tb.swid(b) < a.w-1 {
		if x, y, ok := tb.slinCancel(a, b); ok {
			return tb.SLt(x, y)
		}
	}
	return tb.mk(OpSLt, 0, 0, nil, "", a, b)
}

// slinCancel removes equal summands of two sums that do not wrap as signed integers.
func (tb *TB) slinCancel(a, b *Term) (*Term, *Term, bool) {
	if a.op != OpAdd && a.op != OpSub && b.op != OpAdd && b.op != OpSub {
		return nil, nil, false
	}
	l, l2 := &linF{}, &linF{}
	tb.lin(a, 1, l)
	tb.lin(b, 1, l2)
	if len(l.atoms)+len(l2.atoms) > 12 {
		return nil, nil, false
	}
	ok := false
	if l.k != 0 && l2.k != 0 {
		l2.k -= l.k
		l.k = 0
		ok = true
	}
	for i, x := range l2.atoms {
		for j, y := range l.atoms {
			if x == y && l.coef[j] == l2.coef[i] && l.coef[j] != 0 {
				l.coef[j], l2.coef[i] = 0, 0
				ok = true
			}
		}
	}
	if !ok {
		return nil, nil, false
	}
	return tb.linBuild(l, a.w), tb.linBuild(l2, a.w), true
}
func (tb *TB) SLe(a, b *Term) *Term { return tb.Not(tb.SLt(b, a)) }

// ---- integers ----
func (tb *TB) IAdd(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tb.CB(new(big.Int).Add(a.b, b.b), -1)
		}
		if b.isZero() {
			return a
		}
		if a.op == OpIAdd && a.a[1].isC() {
			return tb.IAdd(a.a[0], tb.IAdd(a.a[1], b))
		}
	}
	if a.op == OpISub && a.a[1] == b {
		return a.a[0]
	}
	return tb.mk(OpIAdd, -1, 0, nil, "", a, b)
}
func (tb *TB) ISub(a, b *Term) *Term {
	if a == b {
		return tb.IntC(0)
	}
	if b.isC() {
		return tb.IAdd(a, tb.CB(new(big.Int).Neg(b.b), -1))
	}
	if a.op == OpIAdd {
		if a.a[1] == b {
			return a.a[0]
		}
		if a.a[0] == b {
			return a.a[1]
		}
	}
	return tb.mk(OpISub, -1, 0, nil, "", a, b)
}
func (tb *TB) IMul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tb.CB(new(big.Int).Mul(a.b, b.b), -1)
		}
		if b.isZero() {
			return b
		}
		if b.isOne() {
			return a
		}
	} else if a.after(b) {
		a, b = b, a
	}
	return tb.mk(OpIMul, -1, 0, nil, "", a, b)
}
func (tb *TB) IDiv(a, b *Term) *Term { // Euclidean
	if b.isC() && !b.isZero() {
		if a.isC() {
			return tb.CB(new(big.Int).Div(a.b, b.b), -1)
		}
		if b.isOne() {
			return a
		}
	}
	return tb.mk(OpIDiv, -1, 0, nil, "", a, b)
}
func (tb *TB) IMod(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			return tb.CB(new(big.Int).Mod(a.b, b.b), -1)
		}
	}
	return tb.mk(OpIMod, -1, 0, nil, "", a, b)
}
func (tb *TB) ILt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.b.Cmp(b.b) < 0)
	}
	if a.op == OpBV2Int && b.isC() && b.b.Sign() <= 0 {
		return tb.False
	}
	if b.op == OpBV2Int && a.isC() && a.b.Sign() < 0 {
		return tb.True
	}
	return tb.mk(OpILt, 0, 0, nil, "", a, b)
}
func (tb *TB) ILe(a, b *Term) *Term { return tb.Not(tb.ILt(b, a)) }

func (tb *TB) BV2Int(a *Term) *Term { // unsigned
	if a.isC() {
		return tb.CB(a.cbig(), -1)
	}
	if a.op == OpZExt {
		return tb.BV2Int(a.a[0])
	}
	return tb.mk(OpBV2Int, -1, 0, nil, "", a)
}
func (tb *TB) SBV2Int(a *Term) *Term {
	if a.isC() {
		return tb.CB(a.csigned(), -1)
	}
	if tb.effw(a) < a.w {
		return tb.BV2Int(a)
	}
	return tb.Ite(tb.SLt(a, tb.CB(new(big.Int), a.w)),
		tb.ISub(tb.BV2Int(a), tb.CB(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), -1)), tb.BV2Int(a))
}
func (tb *TB) Int2BV(a *Term, w int32) *Term {
	if a.isC() {
		return tb.CB(a.b, w)
	}
	if a.op == OpBV2Int {
		x := a.a[0]
		if x.w == w {
			return x
		}
		if x.w < w {
			return tb.ZExt(x, w)
		}
		return tb.Extract(x, w-1, 0)
	}
	if a.op == OpIte {
		return tb.Ite(a.a[0], tb.Int2BV(a.a[1], w), tb.Int2BV(a.a[2], w))
	}
	return tb.mk(OpInt2BV, w, 0, nil, "", a)
}

// rebuild applies the op of t to new args through the simplifying constructors.
func (tb *TB) rebuild(t *Term, a, b, c *Term) *Term {
	switch t.op {
	case OpAdd:
		return tb.Add(a, b)
	case OpSub:
		return tb.Sub(a, b)
	case OpMul:
		return tb.Mul(a, b)
	case OpUDiv:
		if b.isZero() {
			return tb.CB(bigMask(t.w), t.w)
		}
		return tb.UDiv(a, b)
	case OpURem:
		if b.isZero() {
			return a
		}
		return tb.URem(a, b)
	case OpSDiv:
		if b.isZero() {
			if a.csigned().Sign() >= 0 {
				return tb.CB(big.NewInt(-1), t.w)
			}
			return tb.CB(big.NewInt(1), t.w)
		}
		return tb.SDiv(a, b)
	case OpSRem:
		if b.isZero() {
			return a
		}
		return tb.SRem(a, b)
	case OpAnd, OpOr, OpXor:
		return tb.bitop(t.op, a, b)
	case OpNot:
		return tb.BNot(a)
	case OpNeg:
		return tb.Neg(a)
	case OpShl:
		return tb.Shl(a, b)
	case OpLShr:
		return tb.LShr(a, b)
	case OpAShr:
		return tb.AShr(a, b)
	case OpConcat:
		return tb.Concat(a, b)
	case OpExtract:
		return tb.Extract(a, int32(t.u)+t.w-1, int32(t.u))
	case OpZExt:
		return tb.ZExt(a, t.w)
	case OpSExt:
		return tb.SExt(a, t.w)
	case OpEq:
		return tb.Eq(a, b)
	case OpULt:
		return tb.ULt(a, b)
	case OpSLt:
		return tb.SLt(a, b)
	case OpIte:
		return tb.Ite(a, b, c)
	case OpBAnd:
		return tb.And(a, b)
	case OpBOr:
		return tb.Or(a, b)
	case OpBNot:
		return tb.Not(a)
	case OpIAdd:
		return tb.IAdd(a, b)
	case OpISub:
		return tb.ISub(a, b)
	case OpIMul:
		return tb.IMul(a, b)
	case OpIDiv:
		if b.isZero() {
			return tb.IntC(0)
		}
		return tb.IDiv(a, b)
	case OpIMod:
		if b.isZero() {
			return a
		}
		return tb.IMod(a, b)
	case OpILt:
		return tb.ILt(a, b)
	case OpBV2Int:
		return tb.BV2Int(a)
	case OpInt2BV:
		return tb.Int2BV(a, t.w)
	}
	panic("rebuild " + opNames[t.op])
}

// Model maps variable terms to constants.
type Model struct {
	v    map[*Term]*Term
	memo map[*Term]*Term
}

func NewModel() *Model { return &Model{v: map[*Term]*Term{}, memo: map[*Term]*Term{}} }

func (tb *TB) defaultC(w int32) *Term {
	if w == 0 {
		return tb.False
	}
	return tb.CB(new(big.Int), w)
}

// Eval evaluates t under the model (missing variables default to zero).
func (tb *TB) Eval(t *Term, m *Model) *Term {
	switch t.op {
	case OpConst:
		return t
	case OpVar:
		if c, ok := m.v[t]; ok {
			return c
		}
		return tb.defaultC(t.w)
	}
	if c, ok := m.memo[t]; ok {
		return c
	}
	var a, b, c *Term
	if t.op == OpIte {
		if tb.Eval(t.a[0], m) == tb.True {
			a = tb.Eval(t.a[1], m)
		} else {
			a = tb.Eval(t.a[2], m)
		}
		m.memo[t] = a
		return a
	}
	a = tb.Eval(t.a[0], m)
	if t.na > 1 {
		b = tb.Eval(t.a[1], m)
	}
	if t.na > 2 {
		c = tb.Eval(t.a[2], m)
	}
	r := tb.rebuild(t, a, b, c)
	if !r.isC() {
		panic("eval: non-const result for " + opNames[t.op])
	}
	m.memo[t] = r
	return r
}

// ---- printing ----
func sortStr(w int32) string {
	switch {
	case w == 0:
		return "Bool"
	case w == -1:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) constStr() string {
	switch {
	case t.w == 0:
		if t.u != 0 {
			return "true"
		}
		return "false"
	case t.w == -1:
		if t.b.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.b).String() + ")"
		}
		return t.b.String()
	case t.w%4 == 0:
		var s string
		if t.b != nil {
			s = t.b.Text(16)
		} else {
			s = fmt.Sprintf("%x", t.u)
		}
		return "#x" + strings.Repeat("0", int(t.w)/4-len(s)) + s
	default:
		s := t.cbig().Text(2)
		return "#b" + strings.Repeat("0", int(t.w)-len(s)) + s
	}
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return t.constStr()
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int(t.u)+int(t.w)-1, t.u)
	case OpZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a[0].w)
	case OpSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a[0].w)
	case OpInt2BV:
		fmt.Fprintf(&sb, "(_ int2bv %d)", t.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for i := 0; i < int(t.na); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == OpConst {
		return t.constStr()
	}
	if t.op == OpVar {
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	if t.op == OpExtract {
		fmt.Fprintf(&sb, "[%d:%d]", int(t.u)+int(t.w)-1, t.u)
	}
	for i := 0; i < int(t.na); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len
