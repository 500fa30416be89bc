package main

import (
	"go/types"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: when a branch condition is symbolic and the blocks behind it are free of side effects, the two sides
// are evaluated together and their results merged with ite terms instead of forking the path.

type specRegion struct {
	pure bool
}

type specAbort struct{}

type specEdge struct {
	b  *ssa.BasicBlock
	ph []Val
}

var pureCalls = map[string]bool{
	"(*math/big.Int).Cmp": true, "(*math/big.Int).Sign": true, "bytes.Equal": true, "bytes.Compare": true,
	"(*math/big.Int).BitLen": true, "(*math/big.Int).IsUint64": true, "(*math/big.Int).Uint64": true, "(*math/big.Int).IsInt64": true, "(*math/big.Int).Int64": true,
	"(*math/big.Int).CmpAbs": true,
}

func (m *M) specInfo(c *CFn, b *ssa.BasicBlock) *specRegion {
	if c.spec == nil {
		c.spec = map[*ssa.BasicBlock]*specRegion{}
	}
	if r, ok := c.spec[b]; ok {
		return r
	}
	r := &specRegion{}
	c.spec[b] = r
	if len(b.Preds) != 1 || len(b.Instrs) > 40 {
		return r
	}
	for i, ins := range b.Instrs {
		last := i == len(b.Instrs)-1
		switch x := ins.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Field, *ssa.FieldAddr,
			*ssa.Index, *ssa.IndexAddr, *ssa.Extract, *ssa.Lookup, *ssa.Slice, *ssa.DebugRef:
		case *ssa.TypeAssert:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return r
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			if f, ok := x.Call.Value.(*ssa.Function); ok && pureCalls[f.String()] {
				continue
			}
			return r
		case *ssa.Jump, *ssa.If:
			if !last {
				return r
			}
		default:
			return r
		}
	}
	r.pure = true
	return r
}

func (m *M) edgeVals(fr *Frame, b *ssa.BasicBlock, si int) []Val {
	mv := fr.f.edges[b.Index][si]
	out := make([]Val, len(mv))
	for i := range mv {
		out[i] = mv[i].src.get(fr)
	}
	return out
}

// specExec evaluates the non-terminator instructions of b; false when it cannot be done without forking or panicking.
func (m *M) specExec(fr *Frame, b *ssa.BasicBlock) (ok bool) {
	m.specDepth++
	mark := len(m.trail)
	savePC := fr.pc
	defer func() {
		m.specDepth--
		fr.pc = savePC
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, goPanic, engErr:
				m.rollback(mark)
				ok = false
				return
			}
			panic(r)
		}
	}()
	pos := fr.f.starts[b.Index]
	n := 0
	for _, ins := range b.Instrs {
		if _, d := ins.(*ssa.DebugRef); !d {
			n++
		}
	}
	for i := 0; i < n-1; i++ {
		fr.pc = pos + i
		m.steps++
		if fr.f.code[pos+i](m, fr) != cNext {
			return false
		}
	}
	return true
}

func (m *M) mergeVal(c *Term, a, b Val, t types.Type) (Val, bool) {
	if a == b {
		return a, true
	}
	ti := m.ti(t)
	switch ti.k {
	case kBool, kInt, kUint:
		if _, ok := a.p.(*Poison); ok {
			return a, false
		}
		if _, ok := b.p.(*Poison); ok {
			return a, false
		}
		return tv(m.tb.Ite(c, m.asT(a, ti.w), m.asT(b, ti.w))), true
	case kFloat32, kFloat64:
		return a, a.p == nil && b.p == nil && a.n == b.n
	case kString:
		x, y := a.str(), b.str()
		if x.poi != "" || y.poi != "" {
			return a, false
		}
		n := strLen(a)
		if n != strLen(b) || n > 256 {
			return a, false
		}
		out := make([]Val, n)
		for i := range out {
			out[i] = tv(m.tb.Ite(c, m.asT(strByte(a, i), 8), m.asT(strByte(b, i), 8)))
		}
		return strVal(out), true
	case kStruct:
		st := ti.t.(*types.Struct)
		x, ok1 := a.p.(*Agg)
		y, ok2 := b.p.(*Agg)
		if !ok1 || !ok2 {
			return a, false
		}
		e := make([]Val, len(x.e))
		for i := range e {
			v, ok := m.mergeVal(c, x.e[i], y.e[i], st.Field(i).Type())
			if !ok {
				return a, false
			}
			e[i] = v
		}
		return Val{p: &Agg{e}}, true
	case kArray:
		at := ti.t.(*types.Array)
		x, ok1 := a.p.(*Agg)
		y, ok2 := b.p.(*Agg)
		if !ok1 || !ok2 || len(x.e) > 256 {
			return a, false
		}
		e := make([]Val, len(x.e))
		for i := range e {
			v, ok := m.mergeVal(c, x.e[i], y.e[i], at.Elem())
			if !ok {
				return a, false
			}
			e[i] = v
		}
		return Val{p: &Agg{e}}, true
	case kPtr, kMap, kChan, kUnsafe:
		return a, a.p == b.p
	}
	return a, false
}

func (m *M) mergeEdges(c *Term, b *ssa.BasicBlock, x, y []Val) ([]Val, bool) {
	out := make([]Val, len(x))
	for i := range x {
		ph := b.Instrs[i].(*ssa.Phi)
		v, ok := m.mergeVal(c, x[i], y[i], ph.Type())
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

func (m *M) enter(fr *Frame, e specEdge) ctl {
	for i, v := range e.ph {
		fr.regs[fr.f.regOf[e.b.Instrs[i].(*ssa.Phi)]] = v
	}
	fr.pc = fr.f.starts[e.b.Index]
	return cStay
}

func (m *M) trySpec(fr *Frame, b *ssa.BasicBlock, t *Term) (ctl, bool) {
	if m.specDepth > 0 || m.noSpec {
		return 0, false
	}
	c := fr.f
	if !m.specInfo(c, b.Succs[0]).pure && !m.specInfo(c, b.Succs[1]).pure && b.Succs[0] != b.Succs[1] {
		return 0, false
	}
	tb := m.tb
	e := [2]specEdge{{b.Succs[0], m.edgeVals(fr, b, 0)}, {b.Succs[1], m.edgeVals(fr, b, 1)}}
	tried := map[*ssa.BasicBlock]bool{}
	progress := false
	for iter := 0; iter < 64; iter++ {
		if e[0].b == e[1].b {
			ph, ok := m.mergeEdges(t, e[0].b, e[0].ph, e[1].ph)
			if !ok {
				break
			}
			return m.enter(fr, specEdge{e[0].b, ph}), true
		}
		moved := false
		for s := 0; s < 2 && !moved; s++ {
			x := e[s].b
			if tried[x] || !m.specInfo(c, x).pure {
				continue
			}
			tried[x] = true
			if !m.specExec(fr, x) {
				continue
			}
			switch len(x.Succs) {
			case 1:
				e[s] = specEdge{x.Succs[0], m.edgeVals(fr, x, 0)}
				moved = true
			case 2:
				iff := x.Instrs[len(x.Instrs)-1].(*ssa.If)
				o := m.operand(c, iff.Cond)
				ct := m.asT(o.get(fr), 0)
				other := e[1-s]
				// ts: condition under which side s is taken
				ts := t
				if s == 1 {
					ts = tb.Not(t)
				}
				done := false
				for k := 0; k < 2 && !done; k++ {
					if x.Succs[k] != other.b {
						continue
					}
					ph, ok := m.mergeEdges(ts, other.b, m.edgeVals(fr, x, k), other.ph)
					if !ok {
						continue
					}
					// continue on side s towards the other successor
					cc := ct
					if k == 0 {
						cc = tb.Not(ct)
					}
					nts := tb.And(ts, cc)
					e[s] = specEdge{x.Succs[1-k], m.edgeVals(fr, x, 1-k)}
					e[1-s] = specEdge{other.b, ph}
					if s == 0 {
						t = nts
					} else {
						t = tb.Not(nts)
					}
					done = true
				}
				moved = done
			}
		}
		if !moved {
			break
		}
		progress = true
		if t.isC() {
			break
		}
	}
	if !progress {
		return 0, false
	}
	if m.decide(t) {
		return m.enter(fr, e[0]), true
	}
	return m.enter(fr, e[1]), true
}
