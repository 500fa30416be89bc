package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (m *M) compile(fn *ssa.Function) *CFn {
	if c, ok := m.funcs[fn]; ok {
		return c
	}
	if fn.Blocks == nil {
		unsupported("no body for %s", fn.String())
	}
	c := &CFn{fn: fn, name: fn.String(), recov: -1, regOf: map[ssa.Value]int32{}}
	m.funcs[fn] = c
	alloc := func(v ssa.Value) int32 {
		r := c.nregs
		c.nregs++
		c.regOf[v] = r
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	c.starts = make([]int, len(fn.Blocks))
	c.edges = make([][2][]move, len(fn.Blocks))
	pos := 0
	for _, b := range fn.Blocks {
		c.starts[b.Index] = pos
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			pos++
		}
	}
	for _, b := range fn.Blocks {
		for si, s := range b.Succs {
			if si > 1 {
				break
			}
			pi := -1
			// with duplicate edges (both succs the same) predecessor index must match edge order
			cnt := 0
			for k, p := range s.Preds {
				if p == b {
					pi = k
					if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] && cnt < si {
						cnt++
						continue
					}
					break
				}
			}
			var mv []move
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				mv = append(mv, move{c.regOf[ph], m.operand(c, ph.Edges[pi])})
			}
			c.edges[b.Index][si] = mv
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			f := m.compileInstr(c, b, ins)
			if pk := m.pendingGlobals(ins); len(pk) > 0 {
				inner := f
				f = func(m *M, fr *Frame) ctl {
					for _, p := range pk {
						if m.initSt[p] == 0 {
							m.ensureInit(p)
						}
					}
					return inner(m, fr)
				}
			}
			c.code = append(c.code, f)
			c.ins = append(c.ins, ins)
		}
	}
	if fn.Recover != nil {
		c.recov = c.starts[fn.Recover.Index]
	}
	return c
}

func (m *M) pendingGlobals(ins ssa.Instruction) []*ssa.Package {
	var out []*ssa.Package
	for _, op := range ins.Operands(nil) {
		if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && m.initSt[g.Pkg] != 2 {
			out = append(out, g.Pkg)
		}
	}
	return out
}

func (m *M) operand(c *CFn, v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, m.constVal(x)}
	case *ssa.Global:
		return opnd{-1, Val{p: m.globalCell(x)}}
	case *ssa.Function:
		return opnd{-1, Val{p: m.fnVal(x)}}
	case *ssa.Builtin:
		return opnd{-1, Val{p: &Closure{bi: x}}}
	}
	r, ok := c.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no reg for %v in %s", v, c.name))
	}
	return opnd{r, Val{}}
}

var fnValCache = map[*ssa.Function]*Closure{}

func (m *M) fnVal(f *ssa.Function) *Closure {
	if m.side["fnvals"] == nil {
		m.side["fnvals"] = map[*ssa.Function]*Closure{}
	}
	mm := m.side["fnvals"].(map[*ssa.Function]*Closure)
	if c, ok := mm[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	mm[f] = c
	return c
}

func (m *M) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	ti := m.ti(c.Type())
	switch ti.k {
	case kBool:
		return bv(constant.BoolVal(c.Value))
	case kInt, kUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return cv(uint64(i) & mask(ti.w))
		}
		u, _ := constant.Uint64Val(v)
		return cv(u & mask(ti.w))
	case kFloat32, kFloat64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.k == kFloat32 {
			f = float64(float32(f))
		}
		return fv(f)
	case kString:
		return sv(constant.StringVal(c.Value))
	case kUnsafe:
		return Val{}
	case kComplex:
		return Val{p: &Poison{"complex constant"}}
	}
	if tp, ok := c.Type().(*types.TypeParam); ok {
		unsupported("type param const %v", tp)
	}
	unsupported("const of type %s", c.Type())
	return Val{}
}

// parallel phi moves, then jump
func (m *M) jump(fr *Frame, b *ssa.BasicBlock, si int) ctl {
	mv := fr.f.edges[b.Index][si]
	switch len(mv) {
	case 0:
	case 1:
		fr.regs[mv[0].dst] = mv[0].src.get(fr)
	default:
		var tmp [8]Val
		t := tmp[:0]
		for i := range mv {
			t = append(t, mv[i].src.get(fr))
		}
		for i := range mv {
			fr.regs[mv[i].dst] = t[i]
		}
	}
	fr.pc = fr.f.starts[b.Succs[si].Index]
	return cStay
}

func (m *M) compileInstr(c *CFn, b *ssa.BasicBlock, ins ssa.Instruction) instrFn {
	op := func(v ssa.Value) opnd { return m.operand(c, v) }
	var dst int32 = -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.regOf[v]
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		return func(m *M, fr *Frame) ctl {
			cell := new(Val)
			*cell = m.zero(t)
			fr.regs[dst] = Val{p: cell}
			return cNext
		}
	case *ssa.BinOp:
		f := m.binop(x.Op, x.X.Type(), x.Y.Type(), x.Type())
		a, bb := op(x.X), op(x.Y)
		return func(m *M, fr *Frame) ctl {
			fr.regs[dst] = f(m, a.get(fr), bb.get(fr))
			return cNext
		}
	case *ssa.UnOp:
		return m.compileUnOp(c, x, dst)
	case *ssa.Call:
		return m.compileCall(c, &x.Call, dst)
	case *ssa.ChangeInterface:
		a := op(x.X)
		return func(m *M, fr *Frame) ctl { fr.regs[dst] = a.get(fr); return cNext }
	case *ssa.ChangeType:
		a := op(x.X)
		return func(m *M, fr *Frame) ctl { fr.regs[dst] = a.get(fr); return cNext }
	case *ssa.Convert:
		a := op(x.X)
		f := m.conv(x.X.Type(), x.Type())
		return func(m *M, fr *Frame) ctl { fr.regs[dst] = f(m, a.get(fr)); return cNext }
	case *ssa.MultiConvert:
		a := op(x.X)
		f := m.conv(x.X.Type(), x.Type())
		return func(m *M, fr *Frame) ctl { fr.regs[dst] = f(m, a.get(fr)); return cNext }
	case *ssa.Extract:
		a := op(x.Tuple)
		i := x.Index
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			if po, ok := v.p.(*Poison); ok {
				fr.regs[dst] = Val{p: po}
				return cNext
			}
			fr.regs[dst] = v.p.(*Agg).e[i]
			return cNext
		}
	case *ssa.Field:
		a := op(x.X)
		i := x.Field
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			m.poisonCheck(v)
			fr.regs[dst] = v.agg().e[i]
			return cNext
		}
	case *ssa.FieldAddr:
		a := op(x.X)
		i := x.Field
		return func(m *M, fr *Frame) ctl {
			p := m.derefPtr(a.get(fr))
			ag, ok := p.p.(*Agg)
			if !ok {
				m.poisonCheck(*p)
				unsupported("FieldAddr on %T", p.p)
			}
			fr.regs[dst] = Val{p: &ag.e[i]}
			return cNext
		}
	case *ssa.Index:
		a, ix := op(x.X), op(x.Index)
		xt := m.ti(x.X.Type())
		iti := m.ti(x.Index.Type())
		eti := m.ti(x.Type())
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			i := ix.get(fr)
			if xt.k == kString {
				n := strLen(v)
				if i.p == nil {
					k := m.idxCheck(i, iti, n)
					fr.regs[dst] = strByte(v, k)
					return cNext
				}
				m.symIdxCheck(i, iti, n)
				fr.regs[dst] = m.selectElem(strBytes(v), i, iti, eti)
				return cNext
			}
			e := v.agg().e
			if i.p == nil {
				fr.regs[dst] = e[m.idxCheck(i, iti, len(e))]
				return cNext
			}
			m.symIdxCheck(i, iti, len(e))
			fr.regs[dst] = m.selectElem(e, i, iti, eti)
			return cNext
		}
	case *ssa.IndexAddr:
		a, ix := op(x.X), op(x.Index)
		iti := m.ti(x.Index.Type())
		xt := m.ti(x.X.Type())
		var et types.Type
		if xt.k == kSlice {
			et = xt.t.(*types.Slice).Elem()
		} else {
			et = xt.t.(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
		}
		eti := m.ti(et)
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			var e []Val
			if xt.k == kSlice {
				m.poisonCheck(v)
				e = v.slice()
			} else {
				p := m.derefPtr(v)
				m.poisonCheck(*p)
				e = p.agg().e
			}
			i := ix.get(fr)
			if i.p == nil {
				fr.regs[dst] = Val{p: &e[m.idxCheck(i, iti, len(e))]}
				return cNext
			}
			m.symIdxCheck(i, iti, len(e))
			switch eti.k {
			case kBool, kInt, kUint:
				if len(e) <= 600 {
					fr.regs[dst] = Val{p: &SymPtr{e: e, idx: m.idxTerm(i, iti), w: eti.w}}
					return cNext
				}
			}
			k := m.concretize(i, iti.w, 2000, "index")
			fr.regs[dst] = Val{p: &e[k]}
			return cNext
		}
	case *ssa.If:
		a := op(x.Cond)
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			if v.p == nil {
				if v.n != 0 {
					return m.jump(fr, b, 0)
				}
				return m.jump(fr, b, 1)
			}
			t := m.asT(v, 0)
			if !t.isC() && !m.pcSet[t] && !m.pcSet[m.tb.Not(t)] {
				if r, ok := m.trySpec(fr, b, t); ok {
					return r
				}
			}
			if m.decide(t) {
				return m.jump(fr, b, 0)
			}
			return m.jump(fr, b, 1)
		}
	case *ssa.Jump:
		return func(m *M, fr *Frame) ctl { return m.jump(fr, b, 0) }
	case *ssa.Lookup:
		a, ix := op(x.X), op(x.Index)
		xt := m.ti(x.X.Type())
		if xt.k == kString {
			iti := m.ti(x.Index.Type())
			eti := m.ti(types.Typ[types.Uint8])
			return func(m *M, fr *Frame) ctl {
				v := a.get(fr)
				i := ix.get(fr)
				n := strLen(v)
				if i.p == nil {
					fr.regs[dst] = strByte(v, m.idxCheck(i, iti, n))
					return cNext
				}
				m.symIdxCheck(i, iti, n)
				fr.regs[dst] = m.selectElem(strBytes(v), i, iti, eti)
				return cNext
			}
		}
		et := xt.t.(*types.Map).Elem()
		commaOk := x.CommaOk
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			m.poisonCheck(v)
			var r Val
			ok := false
			if v.p != nil {
				mo := v.p.(*MapObj)
				if i := m.mapFind(mo, ix.get(fr)); i >= 0 {
					r = copyVal(mo.ents[i].v)
					ok = true
				}
			}
			if !ok {
				r = m.zero(et)
			}
			if commaOk {
				r = tuple(r, bv(ok))
			}
			fr.regs[dst] = r
			return cNext
		}
	case *ssa.MakeChan:
		a := op(x.Size)
		return func(m *M, fr *Frame) ctl {
			n := m.concretize(a.get(fr), 64, 64, "chan size")
			fr.regs[dst] = Val{p: &Chan{cap: int(n)}}
			return cNext
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, v := range x.Bindings {
			bs = append(bs, op(v))
		}
		return func(m *M, fr *Frame) ctl {
			cl := &Closure{fn: fn, free: make([]Val, len(bs))}
			for i := range bs {
				cl.free[i] = bs[i].get(fr)
			}
			fr.regs[dst] = Val{p: cl}
			return cNext
		}
	case *ssa.MakeInterface:
		a := op(x.X)
		t := x.X.Type()
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			if po, ok := v.p.(*Poison); ok {
				fr.regs[dst] = Val{p: po}
				return cNext
			}
			fr.regs[dst] = Val{p: &Iface{t, v}}
			return cNext
		}
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(m *M, fr *Frame) ctl {
			fr.regs[dst] = Val{p: &MapObj{idx: map[string]int{}, kt: kt}}
			return cNext
		}
	case *ssa.MakeSlice:
		l, cp := op(x.Len), op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lw, cw := m.ti(x.Len.Type()), m.ti(x.Cap.Type())
		return func(m *M, fr *Frame) ctl {
			n := m.makeLen(l.get(fr), lw)
			cpv := cp.get(fr)
			var k int
			if cpv.isSym() && x.Len != x.Cap && cw.w == 64 {
				// symbolic capacity: only its validity matters; the smallest valid capacity is used
				t := m.asT(cpv, 64)
				if m.decide(m.tb.SLt(t, m.tb.C(uint64(n), 64))) {
					panic(goPanic{m.rtErr("makeslice: cap out of range")})
				}
				if m.decide(m.tb.SLt(m.tb.C(1<<40, 64), t)) {
					panic(goPanic{m.rtErr("makeslice: cap out of range")})
				}
				k = n
			} else {
				k = m.makeLen(cpv, cw)
			}
			if n > k {
				panic(goPanic{m.rtErr("makeslice: cap out of range")})
			}
			s := make([]Val, n, k)
			m.fillZero(s[:k], et)
			fr.regs[dst] = Val{p: &SliceV{s}}
			return cNext
		}
	case *ssa.MapUpdate:
		mp, k, v := op(x.Map), op(x.Key), op(x.Value)
		return func(m *M, fr *Frame) ctl {
			a := mp.get(fr)
			m.poisonCheck(a)
			if a.p == nil {
				panic(goPanic{m.rtErr("assignment to entry in nil map")})
			}
			m.mapSet(a.p.(*MapObj), k.get(fr), copyVal(v.get(fr)))
			return cNext
		}
	case *ssa.Next:
		return m.compileNext(c, x, dst)
	case *ssa.Range:
		a := op(x.X)
		isStr := m.ti(x.X.Type()).k == kString
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			it := &Iter{}
			if isStr {
				it.str = v
				it.isStr = true
			} else {
				m.poisonCheck(v)
				if v.p != nil {
					it.m = v.p.(*MapObj)
				}
				it.order = m.maporder
			}
			fr.regs[dst] = Val{p: it}
			return cNext
		}
	case *ssa.Panic:
		a := op(x.X)
		return func(m *M, fr *Frame) ctl { panic(goPanic{a.get(fr)}) }
	case *ssa.Return:
		var rs []opnd
		for _, v := range x.Results {
			rs = append(rs, op(v))
		}
		return func(m *M, fr *Frame) ctl {
			switch len(rs) {
			case 0:
				return m.ret(Val{})
			case 1:
				return m.ret(rs[0].get(fr))
			}
			e := make([]Val, len(rs))
			for i := range rs {
				e[i] = rs[i].get(fr)
			}
			return m.ret(Val{p: &Agg{e}})
		}
	case *ssa.RunDefers:
		return func(m *M, fr *Frame) ctl {
			if fr.defers == nil {
				return cNext
			}
			m.runDefer(fr)
			return cStay
		}
	case *ssa.Defer:
		return m.compileDefer(c, x)
	case *ssa.Go:
		return m.compileGo(c, x)
	case *ssa.Send:
		ch, v := op(x.Chan), op(x.X)
		return func(m *M, fr *Frame) ctl {
			cc := ch.get(fr)
			m.poisonCheck(cc)
			if cc.p == nil {
				return m.block(func(*M) bool { return false })
			}
			return m.chanSend(cc.p.(*Chan), v.get(fr))
		}
	case *ssa.Select:
		return m.compileSelect(c, x, dst)
	case *ssa.Slice:
		return m.compileSlice(c, x, dst)
	case *ssa.SliceToArrayPointer:
		a := op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(m *M, fr *Frame) ctl {
			s := a.get(fr).slice()
			if int64(len(s)) < n {
				panic(goPanic{m.rtErr("cannot convert slice to array pointer: length")})
			}
			if s == nil {
				fr.regs[dst] = Val{}
				return cNext
			}
			fr.regs[dst] = Val{p: &Val{p: &Agg{s[:n:n]}}}
			return cNext
		}
	case *ssa.Store:
		a, v := op(x.Addr), op(x.Val)
		return func(m *M, fr *Frame) ctl {
			pv := a.get(fr)
			if sp, ok := pv.p.(*SymPtr); ok {
				m.symStore(sp, v.get(fr))
				return cNext
			}
			p := m.derefPtr(pv)
			m.assign(p, v.get(fr))
			return cNext
		}
	case *ssa.TypeAssert:
		return m.compileTypeAssert(c, x, dst)
	}
	return func(m *M, fr *Frame) ctl {
		unsupported("instruction %T", ins)
		return cNext
	}
}

type SymPtr struct {
	e   []Val
	idx *Term // 64-bit, in range
	w   int32
}

type Iter struct {
	m     *MapObj
	pos   int
	str   Val
	isStr bool
	order bool
	seen  map[int]bool
}

func (m *M) derefPtr(v Val) *Val {
	switch p := v.p.(type) {
	case *Val:
		return p
	case nil:
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	case *SymPtr:
		k := m.concretize(Val{p: p.idx}, 64, 2000, "index")
		return &p.e[k]
	case *Poison:
		unsupported("deref of value from unmodelled code: %s", p.why)
	}
	unsupported("deref of %T", v.p)
	return nil
}

func (m *M) makeLen(v Val, ti *TI) int {
	if v.p != nil {
		t := m.asT(v, ti.w)
		if ti.k == kInt && m.decide(m.tb.SLt(t, m.tb.C(0, ti.w))) {
			panic(goPanic{m.rtErr("makeslice: len out of range")})
		}
		if m.decide(m.tb.ULt(m.tb.C(uint64(m.P.maxMake), ti.w), t)) {
			if m.decide(m.tb.ULt(m.tb.C(uint64(1)<<uint(min(int(ti.w)-1, 46)), ti.w), t)) {
				panic(goPanic{m.rtErr("makeslice: len out of range")})
			}
			m.E.bound(fmt.Sprintf("make with symbolic length > %d", m.P.maxMake))
			panic(pathEnd{"bound"})
		}
		return int(m.concretize(v, ti.w, m.P.maxMake+2, "make length"))
	}
	n := v.n
	if ti.k == kInt {
		if sx(n, ti.w) < 0 {
			panic(goPanic{m.rtErr("makeslice: len out of range")})
		}
	}
	if n > 1<<44 {
		panic(goPanic{m.rtErr("makeslice: len out of range")})
	}
	if n > 1<<26 {
		m.E.bound(fmt.Sprintf("allocation of %d elements", n))
		panic(pathEnd{"bound"})
	}
	return int(n)
}

func (m *M) fillZero(s []Val, et types.Type) {
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = m.zero(et)
		}
	}
}

func (m *M) idxCheck(i Val, iti *TI, n int) int {
	k := i.n
	if iti.k == kInt {
		k = uint64(sx(i.n, iti.w))
	}
	if k >= uint64(n) {
		panic(goPanic{m.rtErr(fmt.Sprintf("index out of range [%d] with length %d", int64(k), n))})
	}
	return int(k)
}

func (m *M) idxTerm(i Val, iti *TI) *Term {
	t := m.asT(i, iti.w)
	if t.w < 64 {
		if iti.k == kInt {
			return m.tb.SExt(t, 64)
		}
		return m.tb.ZExt(t, 64)
	}
	return t
}

func (m *M) symIdxCheck(i Val, iti *TI, n int) {
	t := m.idxTerm(i, iti)
	if !m.decide(m.tb.ULt(t, m.tb.C(uint64(n), 64))) {
		panic(goPanic{m.rtErr(fmt.Sprintf("index out of range [sym] with length %d", n))})
	}
}

// selectElem reads e[i] for an in-range symbolic index.
func (m *M) selectElem(e []Val, i Val, iti *TI, eti *TI) Val {
	switch eti.k {
	case kBool, kInt, kUint:
		return tv(m.selTerm(e, m.idxTerm(i, iti), eti.w))
	}
	k := m.concretize(i, iti.w, 2000, "index")
	return copyVal(e[k])
}

func (m *M) selTerm(e []Val, t *Term, w int32) *Term {
	tb := m.tb
	n := len(e)
	if n == 0 {
		unsupported("select from empty")
	}
	// only the low bits matter; build balanced ite tree on index bits
	nb := int32(1)
	for 1<<uint(nb) < n {
		nb++
	}
	ix := tb.Extract(t, nb-1, 0)
	var build func(lo, bit int) *Term
	build = func(lo, bit int) *Term {
		if lo >= n {
			return nil
		}
		if bit < 0 {
			return m.asT(e[lo], w)
		}
		l := build(lo, bit-1)
		h := build(lo|1<<uint(bit), bit-1)
		if h == nil {
			return l
		}
		return tb.Ite(tb.Eq(tb.Extract(ix, int32(bit), int32(bit)), tb.C(1, 1)), h, l)
	}
	return tb.canon(build(0, int(nb)-1))
}

func (m *M) symStore(sp *SymPtr, v Val) {
	nv := m.asT(v, sp.w)
	for i := range sp.e {
		c := m.tb.Eq(sp.idx, m.tb.C(uint64(i), 64))
		if c == m.tb.False {
			continue
		}
		m.set(&sp.e[i], tv(m.tb.Ite(c, nv, m.asT(sp.e[i], sp.w))))
	}
}

func (m *M) compileUnOp(c *CFn, x *ssa.UnOp, dst int32) instrFn {
	a := m.operand(c, x.X)
	ti := m.ti(x.X.Type())
	rti := m.ti(x.Type())
	switch x.Op {
	case token.MUL:
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			p, ok := v.p.(*Val)
			if !ok {
				if sp, ok := v.p.(*SymPtr); ok {
					fr.regs[dst] = tv(m.selTerm(sp.e, sp.idx, sp.w))
					return cNext
				}
				p = m.derefPtr(v)
			}
			r := *p
			if _, ok := r.p.(*Agg); ok {
				r = copyVal(r)
			} else if sl, ok := r.p.(*SliceV); ok && rti.k == kString {
				r = strVal(sl.s)
			}
			fr.regs[dst] = r
			return cNext
		}
	case token.NOT:
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			if v.p == nil {
				fr.regs[dst] = cv(v.n ^ 1)
			} else {
				fr.regs[dst] = tv(m.tb.Not(m.asT(v, 0)))
			}
			return cNext
		}
	case token.SUB:
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			switch ti.k {
			case kFloat64, kFloat32:
				if v.p != nil {
					unsupported("symbolic float negation")
				}
				fr.regs[dst] = fv(-fl(v))
			default:
				if v.p == nil {
					fr.regs[dst] = cv(-v.n & mask(ti.w))
				} else {
					fr.regs[dst] = tv(m.tb.Neg(m.asT(v, ti.w)))
				}
			}
			return cNext
		}
	case token.XOR:
		return func(m *M, fr *Frame) ctl {
			v := a.get(fr)
			if v.p == nil {
				fr.regs[dst] = cv(^v.n & mask(ti.w))
			} else {
				fr.regs[dst] = tv(m.tb.BNot(m.asT(v, ti.w)))
			}
			return cNext
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(m *M, fr *Frame) ctl {
			cc := a.get(fr)
			m.poisonCheck(cc)
			if cc.p == nil {
				return m.block(func(*M) bool { return false })
			}
			ch := cc.p.(*Chan)
			v, ok, blocked := m.chanRecv(ch, et)
			if blocked {
				return m.block(func(*M) bool { return len(ch.buf) > 0 || ch.closed })
			}
			if commaOk {
				v = tuple(v, bv(ok))
			}
			fr.regs[dst] = v
			return cNext
		}
	}
	return func(m *M, fr *Frame) ctl { unsupported("unop %v", x.Op); return cNext }
}

func (m *M) chanRecv(ch *Chan, et types.Type) (Val, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		old := ch.buf
		ch.buf = append([]Val{}, ch.buf[1:]...)
		m.undo(func() { ch.buf = old })
		return v, true, false
	}
	if ch.closed {
		return m.zero(et), false, false
	}
	return Val{}, false, true
}

// Unbuffered channels are modelled as capacity-1 hand-off buffers.
func (m *M) chanSend(ch *Chan, v Val) ctl {
	if ch.closed {
		panic(goPanic{m.rtErr("send on closed channel")})
	}
	cp := ch.cap
	if cp == 0 {
		cp = 1
	}
	if len(ch.buf) >= cp {
		return m.block(func(*M) bool { return len(ch.buf) < cp || ch.closed })
	}
	old := ch.buf
	ch.buf = append(append([]Val{}, ch.buf...), v)
	m.undo(func() { ch.buf = old })
	return cNext
}

func (m *M) compileSelect(c *CFn, x *ssa.Select, dst int32) instrFn {
	type st struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		e := st{ch: m.operand(c, s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.v = m.operand(c, s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	tt := x.Type()
	return func(m *M, fr *Frame) ctl {
		ready := func(s *st) bool {
			cc := s.ch.get(fr)
			if cc.p == nil {
				return false
			}
			ch := cc.p.(*Chan)
			if s.send {
				cp := ch.cap
				if cp == 0 {
					cp = 1
				}
				return ch.closed || len(ch.buf) < cp
			}
			return ch.closed || len(ch.buf) > 0
		}
		var rd []int
		for i := range sts {
			if ready(&sts[i]) {
				rd = append(rd, i)
			}
		}
		res := m.zero(tt)
		a := res.agg()
		if len(rd) == 0 {
			if blocking {
				return m.block(func(*M) bool {
					for i := range sts {
						if ready(&sts[i]) {
							return true
						}
					}
					return false
				})
			}
			a.e[0] = cv(^uint64(0))
			fr.regs[dst] = res
			return cNext
		}
		i := rd[m.choose(len(rd))]
		s := &sts[i]
		a.e[0] = cv(uint64(i))
		ch := s.ch.get(fr).p.(*Chan)
		if s.send {
			m.chanSend(ch, s.v.get(fr))
		} else {
			v, ok, _ := m.chanRecv(ch, s.et)
			a.e[1] = bv(ok)
			k := 2
			for j := 0; j < i; j++ {
				if !sts[j].send {
					k++
				}
			}
			a.e[k] = v
		}
		fr.regs[dst] = res
		return cNext
	}
}

func (m *M) compileNext(c *CFn, x *ssa.Next, dst int32) instrFn {
	a := m.operand(c, x.Iter)
	tt := x.Type().(*types.Tuple)
	return func(m *M, fr *Frame) ctl {
		it := a.get(fr).p.(*Iter)
		if it.isStr {
			n := strLen(it.str)
			if it.pos >= n {
				fr.regs[dst] = tuple(bv(false), Val{}, Val{})
				return cNext
			}
			pos := it.pos
			b0 := strByte(it.str, pos)
			var r Val
			sz := 1
			if b0.p != nil {
				if m.decide(m.tb.ULt(m.asT(b0, 8), m.tb.C(0x80, 8))) {
					r = tv(m.tb.ZExt(m.asT(b0, 8), 32))
				} else {
					var buf []byte
					for j := pos; j < n && j < pos+4; j++ {
						buf = append(buf, byte(m.concretize(strByte(it.str, j), 8, 256, "utf8 byte")))
					}
					ru, s := utf8.DecodeRune(buf)
					r, sz = cv(uint64(uint32(ru))), s
				}
			} else if b0.n < 0x80 {
				r = cv(b0.n)
			} else {
				var buf []byte
				for j := pos; j < n && j < pos+4; j++ {
					buf = append(buf, byte(m.concretize(strByte(it.str, j), 8, 256, "utf8 byte")))
				}
				ru, s := utf8.DecodeRune(buf)
				r, sz = cv(uint64(uint32(ru))), s
			}
			it.pos += sz
			m.undo(func() { it.pos = pos })
			fr.regs[dst] = tuple(bv(true), cv(uint64(pos)), r)
			return cNext
		}
		if it.m == nil {
			fr.regs[dst] = tuple(bv(false), m.zero(tt.At(1).Type()), m.zero(tt.At(2).Type()))
			return cNext
		}
		if it.order {
			if it.seen == nil {
				it.seen = map[int]bool{}
			}
			var cand []int
			for i := range it.m.ents {
				if !it.m.ents[i].dead && !it.seen[i] {
					cand = append(cand, i)
				}
			}
			if len(cand) > 0 {
				i := cand[m.choose(len(cand))]
				it.seen[i] = true
				m.undo(func() { delete(it.seen, i) })
				e := &it.m.ents[i]
				fr.regs[dst] = tuple(bv(true), copyVal(e.k), copyVal(e.v))
				return cNext
			}
			fr.regs[dst] = tuple(bv(false), m.zero2(tt.At(1).Type()), m.zero2(tt.At(2).Type()))
			return cNext
		}
		old := it.pos
		for it.pos < len(it.m.ents) {
			e := &it.m.ents[it.pos]
			it.pos++
			if !e.dead {
				m.undo(func() { it.pos = old })
				fr.regs[dst] = tuple(bv(true), copyVal(e.k), copyVal(e.v))
				return cNext
			}
		}
		m.undo(func() { it.pos = old })
		fr.regs[dst] = tuple(bv(false), m.zero2(tt.At(1).Type()), m.zero2(tt.At(2).Type()))
		return cNext
	}
}

func (m *M) zero2(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Val{}
	}
	return m.zero(t)
}

func (m *M) compileSlice(c *CFn, x *ssa.Slice, dst int32) instrFn {
	a := m.operand(c, x.X)
	opt := func(v ssa.Value) (opnd, *TI, bool) {
		if v == nil {
			return opnd{}, nil, false
		}
		return m.operand(c, v), m.ti(v.Type()), true
	}
	lo, lti, hasLo := opt(x.Low)
	hi, hti, hasHi := opt(x.High)
	mx, mti, hasMax := opt(x.Max)
	xt := m.ti(x.X.Type())
	return func(m *M, fr *Frame) ctl {
		v := a.get(fr)
		m.poisonCheck(v)
		var s []Val
		isStr := xt.k == kString
		var ln, cp int
		switch xt.k {
		case kString:
			ln = strLen(v)
			cp = ln
		case kSlice:
			s = v.slice()
			ln, cp = len(s), cap(s)
		case kPtr:
			p := m.derefPtr(v)
			s = p.agg().e
			ln, cp = len(s), len(s)
			s = s[:ln:ln]
		default:
			unsupported("slice of %s", x.X.Type())
		}
		if hasLo && !hasHi && !hasMax && !isStr {
			if t := lo.get(fr).term(); t != nil && t.w == 64 {
				if lt, k, ok := m.lazyOffset(t); ok && k == ln && int(lt.w/8) <= k {
					fr.regs[dst] = Val{p: &LazyView{m.newLazy(lt).p.(*LazyB), s, k}}
					return cNext
				}
			}
		}
		bound := func(o opnd, ti *TI, limit int, what string) int {
			i := o.get(fr)
			if i.p != nil {
				t := m.idxTerm(i, ti)
				if !m.decide(m.tb.ULe(t, m.tb.C(uint64(limit), 64))) {
					panic(goPanic{m.rtErr("slice bounds out of range [sym] with capacity")})
				}
				return int(m.concretize(i, ti.w, 5000, "slice bound"))
			}
			k := i.n
			if ti.k == kInt {
				k = uint64(sx(i.n, ti.w))
			}
			if k > uint64(limit) {
				panic(goPanic{m.rtErr(fmt.Sprintf("slice bounds out of range [%s%d] with capacity %d", what, int64(k), limit))})
			}
			return int(k)
		}
		h := ln
		mxv := cp
		if hasMax {
			mxv = bound(mx, mti, cp, "::")
		}
		if hasHi {
			lim := mxv
			if isStr {
				lim = ln
			}
			h = bound(hi, hti, lim, ":")
		} else if h > mxv {
			panic(goPanic{m.rtErr("slice bounds out of range")})
		}
		l := 0
		if hasLo {
			l = bound(lo, lti, h, "")
		}
		if isStr {
			st := v.str()
			if st.sym != nil {
				fr.regs[dst] = strVal(st.sym[l:h])
			} else {
				fr.regs[dst] = sv(st.c[l:h])
			}
			return cNext
		}
		if s == nil {
			fr.regs[dst] = Val{}
			return cNext
		}
		fr.regs[dst] = Val{p: &SliceV{s[l:h:mxv]}}
		return cNext
	}
}

func (m *M) implements(t types.Type, it *types.Interface) bool {
	key := [2]types.Type{t, it}
	mm, _ := m.side["impl"].(map[[2]types.Type]bool)
	if mm == nil {
		mm = map[[2]types.Type]bool{}
		m.side["impl"] = mm
	}
	if r, ok := mm[key]; ok {
		return r
	}
	r := types.Implements(t, it)
	mm[key] = r
	return r
}

func (m *M) compileTypeAssert(c *CFn, x *ssa.TypeAssert, dst int32) instrFn {
	a := m.operand(c, x.X)
	at := x.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	return func(m *M, fr *Frame) ctl {
		v := a.get(fr)
		m.poisonCheck(v)
		ok := false
		var r Val
		if v.p != nil {
			f := v.p.(*Iface)
			if isI {
				if m.implements(f.t, it) {
					ok = true
					r = v
				}
			} else if m.sameType(f.t, at) {
				ok = true
				r = copyVal(f.v)
			}
		}
		if !ok {
			if !commaOk {
				dyn := "nil"
				if v.p != nil {
					dyn = v.p.(*Iface).t.String()
				}
				panic(goPanic{m.rtErr("interface conversion: interface is " + dyn + ", not " + at.String())})
			}
			r = m.zero(at)
		}
		if commaOk {
			r = tuple(r, bv(ok))
		}
		fr.regs[dst] = r
		return cNext
	}
}

func (m *M) rtErr(msg string) Val {
	// a runtime.Error-like value: use runtime.errorString when available
	if t := m.P.rtErrType; t != nil {
		return Val{p: &Iface{t, sv(msg)}}
	}
	return Val{p: &Iface{types.Typ[types.String], sv("runtime error: " + msg)}}
}

// ---- binary operators ----
type binFn func(m *M, a, b Val) Val

func (m *M) binop(op token.Token, xt, yt, rt types.Type) binFn {
	ti := m.ti(xt)
	w := ti.w
	mk := mask(w)
	signed := ti.k == kInt
	cmpRes := func(f func(tb *TB, a, b *Term) *Term) func(m *M, a, b Val) Val {
		return func(m *M, a, b Val) Val { return tv(f(m.tb, m.asT(a, w), m.asT(b, w))) }
	}
	switch op {
	case token.EQL, token.NEQ:
		eq := op == token.EQL
		if ti.k == kInt || ti.k == kUint || ti.k == kBool {
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return bv((a.n == b.n) == eq)
				}
				t := m.tb.Eq(m.asT(a, w), m.asT(b, w))
				if !eq {
					t = m.tb.Not(t)
				}
				return tv(t)
			}
		}
		return func(m *M, a, b Val) Val {
			// interface vs concrete comparisons are made uniform by MakeInterface in SSA
			t := m.eqTerm2(a, b, xt, yt)
			if !eq {
				t = m.tb.Not(t)
			}
			return tv(t)
		}
	}
	switch ti.k {
	case kInt, kUint:
		switch op {
		case token.ADD:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv((a.n + b.n) & mk)
				}
				return tv(m.tb.Add(m.asT(a, w), m.asT(b, w)))
			}
		case token.SUB:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv((a.n - b.n) & mk)
				}
				return tv(m.tb.Sub(m.asT(a, w), m.asT(b, w)))
			}
		case token.MUL:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv((a.n * b.n) & mk)
				}
				return tv(m.tb.Mul(m.asT(a, w), m.asT(b, w)))
			}
		case token.QUO, token.REM:
			return func(m *M, a, b Val) Val {
				if b.p == nil && b.n == 0 {
					panic(goPanic{m.rtErr("integer divide by zero")})
				}
				if a.p == nil && b.p == nil {
					if signed {
						x, y := sx(a.n, w), sx(b.n, w)
						if y == -1 {
							if op == token.QUO {
								return cv(uint64(-x) & mk)
							}
							return cv(0)
						}
						if op == token.QUO {
							return cv(uint64(x/y) & mk)
						}
						return cv(uint64(x%y) & mk)
					}
					if op == token.QUO {
						return cv(a.n / b.n)
					}
					return cv(a.n % b.n)
				}
				x, y := m.asT(a, w), m.asT(b, w)
				if b.p != nil && m.decide(m.tb.Eq(y, m.tb.C(0, w))) {
					panic(goPanic{m.rtErr("integer divide by zero")})
				}
				switch {
				case signed && op == token.QUO:
					return tv(m.tb.SDiv(x, y))
				case signed:
					return tv(m.tb.SRem(x, y))
				case op == token.QUO:
					return tv(m.tb.UDiv(x, y))
				default:
					return tv(m.tb.URem(x, y))
				}
			}
		case token.AND:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv(a.n & b.n)
				}
				return tv(m.tb.BAnd(m.asT(a, w), m.asT(b, w)))
			}
		case token.OR:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv(a.n | b.n)
				}
				return tv(m.tb.BOr(m.asT(a, w), m.asT(b, w)))
			}
		case token.XOR:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv(a.n ^ b.n)
				}
				return tv(m.tb.Xor(m.asT(a, w), m.asT(b, w)))
			}
		case token.AND_NOT:
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return cv(a.n &^ b.n)
				}
				return tv(m.tb.BAnd(m.asT(a, w), m.tb.BNot(m.asT(b, w))))
			}
		case token.SHL, token.SHR:
			yti := m.ti(yt)
			return func(m *M, a, b Val) Val {
				if yti.k == kInt {
					if b.p == nil {
						if sx(b.n, yti.w) < 0 {
							panic(goPanic{m.rtErr("negative shift amount")})
						}
					} else if m.decide(m.tb.SLt(m.asT(b, yti.w), m.tb.C(0, yti.w))) {
						panic(goPanic{m.rtErr("negative shift amount")})
					}
				}
				if a.p == nil && b.p == nil {
					n := b.n
					if op == token.SHL {
						if n >= uint64(w) {
							return cv(0)
						}
						return cv((a.n << n) & mk)
					}
					if signed {
						if n >= uint64(w) {
							n = uint64(w) - 1
						}
						return cv(uint64(sx(a.n, w)>>n) & mk)
					}
					if n >= uint64(w) {
						return cv(0)
					}
					return cv(a.n >> n)
				}
				x := m.asT(a, w)
				y := m.asT(b, yti.w)
				// bring y to width w, saturating
				if y.w < w {
					y = m.tb.ZExt(y, w)
				} else if y.w > w {
					big := m.tb.ULt(m.tb.C(uint64(w), y.w), y)
					y = m.tb.Ite(big, m.tb.C(uint64(w), w), m.tb.Extract(y, w-1, 0))
				}
				switch {
				case op == token.SHL:
					return tv(m.tb.Shl(x, y))
				case signed:
					return tv(m.tb.AShr(x, y))
				}
				return tv(m.tb.LShr(x, y))
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var f func(tb *TB, a, b *Term) *Term
			var cf func(a, b uint64) bool
			if signed {
				switch op {
				case token.LSS:
					f = func(tb *TB, a, b *Term) *Term { return tb.SLt(a, b) }
					cf = func(a, b uint64) bool { return sx(a, w) < sx(b, w) }
				case token.LEQ:
					f = func(tb *TB, a, b *Term) *Term { return tb.SLe(a, b) }
					cf = func(a, b uint64) bool { return sx(a, w) <= sx(b, w) }
				case token.GTR:
					f = func(tb *TB, a, b *Term) *Term { return tb.SLt(b, a) }
					cf = func(a, b uint64) bool { return sx(a, w) > sx(b, w) }
				default:
					f = func(tb *TB, a, b *Term) *Term { return tb.SLe(b, a) }
					cf = func(a, b uint64) bool { return sx(a, w) >= sx(b, w) }
				}
			} else {
				switch op {
				case token.LSS:
					f = func(tb *TB, a, b *Term) *Term { return tb.ULt(a, b) }
					cf = func(a, b uint64) bool { return a < b }
				case token.LEQ:
					f = func(tb *TB, a, b *Term) *Term { return tb.ULe(a, b) }
					cf = func(a, b uint64) bool { return a <= b }
				case token.GTR:
					f = func(tb *TB, a, b *Term) *Term { return tb.ULt(b, a) }
					cf = func(a, b uint64) bool { return a > b }
				default:
					f = func(tb *TB, a, b *Term) *Term { return tb.ULe(b, a) }
					cf = func(a, b uint64) bool { return a >= b }
				}
			}
			sym := cmpRes(f)
			return func(m *M, a, b Val) Val {
				if a.p == nil && b.p == nil {
					return bv(cf(a.n, b.n))
				}
				return sym(m, a, b)
			}
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return func(m *M, a, b Val) Val { return tv(m.tb.And(m.asT(a, 0), m.asT(b, 0))) }
		case token.OR, token.LOR:
			return func(m *M, a, b Val) Val { return tv(m.tb.Or(m.asT(a, 0), m.asT(b, 0))) }
		case token.XOR:
			return func(m *M, a, b Val) Val { return tv(m.tb.Not(m.tb.Eq(m.asT(a, 0), m.asT(b, 0)))) }
		}
	case kFloat32, kFloat64:
		f32 := ti.k == kFloat32
		return func(m *M, a, b Val) Val {
			if a.p != nil || b.p != nil {
				return m.symFloatOp(op, a, b)
			}
			x, y := fl(a), fl(b)
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.LSS:
				return bv(x < y)
			case token.LEQ:
				return bv(x <= y)
			case token.GTR:
				return bv(x > y)
			case token.GEQ:
				return bv(x >= y)
			default:
				unsupported("float op %v", op)
			}
			if f32 {
				r = float64(float32(r))
			}
			return fv(r)
		}
	case kString:
		switch op {
		case token.ADD:
			return func(m *M, a, b Val) Val { return m.strCat(a, b) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return func(m *M, a, b Val) Val {
				switch op {
				case token.LSS:
					return tv(m.lexLt(strBytes(a), strBytes(b)))
				case token.GTR:
					return tv(m.lexLt(strBytes(b), strBytes(a)))
				case token.LEQ:
					return tv(m.tb.Not(m.lexLt(strBytes(b), strBytes(a))))
				default:
					return tv(m.tb.Not(m.lexLt(strBytes(a), strBytes(b))))
				}
			}
		}
	}
	return func(m *M, a, b Val) Val {
		unsupported("binop %v on %s", op, xt)
		return Val{}
	}
}

func (m *M) eqTerm2(a, b Val, xt, yt types.Type) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		b = Val{p: &Iface{yt, b}}
		return m.eqTerm(a, b, xt)
	}
	if yi && !xi {
		a = Val{p: &Iface{xt, a}}
		return m.eqTerm(a, b, yt)
	}
	return m.eqTerm(a, b, xt)
}

func (m *M) strCat(a, b Val) Val {
	x, y := a.str(), b.str()
	if x.poi != "" || y.poi != "" {
		return Val{p: &Str{poi: x.poi + y.poi}}
	}
	if x.sym == nil && y.sym == nil {
		return sv(x.c + y.c)
	}
	return strVal(append(strBytes(a), strBytes(b)...))
}

// lexLt: a < b lexicographically, as a term.
func (m *M) lexLt(a, b []Val) *Term {
	tb := m.tb
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	// equal-length aligned prefix can be compared as one big-endian number, which suits the solver best
	var r *Term
	r = tb.Bool(len(a) < len(b))
	if n == 0 {
		return r
	}
	var x, y *Term
	for i := 0; i < n; i++ {
		p, q := m.asT(a[i], 8), m.asT(b[i], 8)
		if x == nil {
			x, y = p, q
		} else {
			x, y = tb.Concat(x, p), tb.Concat(y, q)
		}
	}
	return tb.Or(tb.ULt(x, y), tb.And(tb.Eq(x, y), r))
}

// SymF is a float64 known to be exactly the (signed) integer t with |t| < 2^53.
type SymF struct {
	t    *Term // 64 bits
	bits int32 // |t| < 2^bits, bits <= 53
}

func (m *M) asF(v Val) *SymF {
	switch x := v.p.(type) {
	case *SymF:
		return x
	case nil:
		f := fl(v)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			n := int64(f)
			b := int32(0)
			for k := n; k != 0; k /= 2 {
				b++
			}
			return &SymF{m.tb.C(uint64(n), 64), b}
		}
	case *Poison:
		m.poisonCheck(v)
	}
	return nil
}

func (m *M) symFloatOp(op token.Token, a, b Val) Val {
	x, y := m.asF(a), m.asF(b)
	if x == nil || y == nil {
		unsupported("symbolic float operation %v", op)
	}
	mx := x.bits
	if y.bits > mx {
		mx = y.bits
	}
	switch op {
	case token.ADD:
		if y.t.isZero() {
			return Val{p: x}
		}
		if x.t.isZero() {
			return Val{p: y}
		}
		if mx < 52 {
			return Val{p: &SymF{m.tb.Add(x.t, y.t), mx + 1}}
		}
	case token.SUB:
		if mx < 52 {
			return Val{p: &SymF{m.tb.Sub(x.t, y.t), mx + 1}}
		}
	case token.MUL:
		if x.bits+y.bits <= 53 {
			return Val{p: &SymF{m.tb.Mul(x.t, y.t), x.bits + y.bits}}
		}
	case token.LSS:
		return tv(m.tb.SLt(x.t, y.t))
	case token.LEQ:
		return tv(m.tb.SLe(x.t, y.t))
	case token.GTR:
		return tv(m.tb.SLt(y.t, x.t))
	case token.GEQ:
		return tv(m.tb.SLe(y.t, x.t))
	case token.EQL:
		return tv(m.tb.Eq(x.t, y.t))
	case token.NEQ:
		return tv(m.tb.Not(m.tb.Eq(x.t, y.t)))
	}
	unsupported("symbolic float operation %v", op)
	return Val{}
}

// ---- conversions ----
func (m *M) conv(from, to types.Type) func(m *M, v Val) Val {
	ft, tt := m.ti(from), m.ti(to)
	switch {
	case (ft.k == kInt || ft.k == kUint) && (tt.k == kInt || tt.k == kUint):
		return func(m *M, v Val) Val {
			if v.p == nil {
				n := v.n
				if ft.k == kInt {
					n = uint64(sx(n, ft.w))
				}
				return cv(n & mask(tt.w))
			}
			t := m.asT(v, ft.w)
			switch {
			case tt.w == ft.w:
				return v
			case tt.w < ft.w:
				return tv(m.tb.Extract(t, tt.w-1, 0))
			case ft.k == kInt:
				return tv(m.tb.SExt(t, tt.w))
			}
			return tv(m.tb.ZExt(t, tt.w))
		}
	case (ft.k == kInt || ft.k == kUint) && (tt.k == kFloat64 || tt.k == kFloat32):
		return func(m *M, v Val) Val {
			if v.p != nil {
				return m.symInt2Float(v, ft)
			}
			var f float64
			if ft.k == kInt {
				f = float64(sx(v.n, ft.w))
			} else {
				f = float64(v.n)
			}
			if tt.k == kFloat32 {
				f = float64(float32(f))
			}
			return fv(f)
		}
	case (ft.k == kFloat64 || ft.k == kFloat32) && (tt.k == kInt || tt.k == kUint):
		return func(m *M, v Val) Val {
			if v.p != nil {
				return m.symFloat2Int(v, tt)
			}
			f := fl(v)
			if tt.k == kInt {
				return cv(uint64(int64(f)) & mask(tt.w))
			}
			return cv(uint64(f) & mask(tt.w))
		}
	case (ft.k == kFloat64 || ft.k == kFloat32) && (tt.k == kFloat64 || tt.k == kFloat32):
		return func(m *M, v Val) Val {
			if v.p != nil {
				return v
			}
			if tt.k == kFloat32 {
				return fv(float64(float32(fl(v))))
			}
			return v
		}
	case ft.k == kString && tt.k == kSlice:
		e := tt.t.(*types.Slice).Elem()
		if m.ti(e).w == 8 {
			return func(m *M, v Val) Val { return Val{p: &SliceV{strBytes(v)}} }
		}
		return func(m *M, v Val) Val {
			var out []Val
			for _, r := range v.cstr() {
				out = append(out, cv(uint64(uint32(r))))
			}
			return Val{p: &SliceV{out}}
		}
	case ft.k == kSlice && tt.k == kString:
		e := ft.t.(*types.Slice).Elem()
		if m.ti(e).w == 8 {
			return func(m *M, v Val) Val { return strVal(v.slice()) }
		}
		return func(m *M, v Val) Val {
			var rs []rune
			for _, x := range v.slice() {
				rs = append(rs, rune(uint32(m.concretize(x, 32, 300, "rune"))))
			}
			return sv(string(rs))
		}
	case (ft.k == kInt || ft.k == kUint) && tt.k == kString:
		return func(m *M, v Val) Val {
			if v.p != nil {
				t := m.asT(v, ft.w)
				if m.decide(m.tb.ULt(t, m.tb.C(0x80, ft.w))) {
					return strVal([]Val{tv(m.tb.Extract(t, 7, 0))})
				}
			}
			n := m.concretize(v, ft.w, 300, "rune")
			return sv(string(rune(sx(n, ft.w))))
		}
	case tt.k == kUnsafe || ft.k == kUnsafe:
		return func(m *M, v Val) Val {
			if tt.k == kUint {
				// uintptr(unsafe.Pointer): usable only as an opaque number
				if v.p == nil {
					return cv(0)
				}
				if p, ok := v.p.(*Val); ok {
					return cv(uint64(uintptr(unsafe.Pointer(p))))
				}
			}
			return v
		}
	case ft.k == kString && tt.k == kString, ft.k == kSlice && tt.k == kSlice, ft.k == kPtr && tt.k == kPtr:
		return func(m *M, v Val) Val { return v }
	case ft.k == kSlice && tt.k == kArray:
		n := tt.t.(*types.Array).Len()
		return func(m *M, v Val) Val {
			s := v.slice()
			if int64(len(s)) < n {
				panic(goPanic{m.rtErr("cannot convert slice to array: length")})
			}
			return copyVal(Val{p: &Agg{s[:n:n]}})
		}
	}
	return func(m *M, v Val) Val {
		unsupported("conversion %s -> %s", from, to)
		return Val{}
	}
}

func (m *M) symInt2Float(v Val, ti *TI) Val {
	t := m.asT(v, ti.w)
	e := m.tb.effw(t)
	if e <= 53 && (ti.k == kUint || e < t.w) {
		return Val{p: &SymF{m.tb.ZExt(t, 64), e}}
	}
	// exact when the path condition keeps the value small
	if t.w == 64 {
		lim := m.tb.C(1<<53, 64)
		in := m.tb.ULt(m.tb.Add(t, m.tb.C(1<<52, 64)), lim)
		if r, _ := m.sess.Check(m.pc, m.tb.Not(in), false); r == Unsat {
			return Val{p: &SymF{t, 53}}
		}
	}
	return Val{p: &Poison{"symbolic int to float"}}
}
func (m *M) symFloat2Int(v Val, ti *TI) Val {
	if f := m.asF(v); f != nil {
		if ti.w == 64 {
			return tv(f.t)
		}
		return tv(m.tb.Extract(f.t, ti.w-1, 0))
	}
	unsupported("symbolic float to int")
	return Val{}
}

var _ = math.Pi
var _ = big.NewInt
