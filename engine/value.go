package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a machine value. Concrete scalars live in n (truncated to their width, bool 0/1, floats as bits);
// symbolic scalars have p.(*Term). Other kinds are held in p:
//
//	*Val pointer, *SliceV slice, *Str string, *Agg struct/array/tuple by value, *Iface interface,
//	*Closure func, *MapObj map, *Chan channel, *BigNum (inside big.Int.abs), *Poison
//
// nil pointer/slice/map/func/interface/"" have p==nil && n==0.
type Val struct {
	n uint64
	p any
}

type Agg struct{ e []Val }

type SliceV struct{ s []Val }

type Str struct {
	c   string
	sym []Val // when non-nil, the bytes (some symbolic)
	poi string
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn   *ssa.Function
	free []Val
	nat  func(m *M, args []Val) Val // native closure (engine built)
	bi   *ssa.Builtin
}

type Poison struct{ why string }

type Chan struct {
	buf    []Val
	cap    int
	closed bool
}

func (v Val) term() *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return nil
}

func (v Val) isSym() bool { _, ok := v.p.(*Term); return ok }

func cv(n uint64) Val { return Val{n: n} }
func bv(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}
func tv(t *Term) Val {
	if t.isC() && t.w <= 64 && t.w >= 0 {
		return Val{n: t.u}
	}
	return Val{p: t}
}

func sv(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: &Str{c: s}}
}

func strVal(bs []Val) Val {
	if len(bs) == 0 {
		return Val{}
	}
	for _, b := range bs {
		if b.p != nil {
			return Val{p: &Str{sym: append([]Val{}, bs...)}}
		}
	}
	buf := make([]byte, len(bs))
	for i, b := range bs {
		buf[i] = byte(b.n)
	}
	return Val{p: &Str{c: string(buf)}}
}

func (v Val) str() *Str {
	if v.p == nil {
		return &Str{}
	}
	s, ok := v.p.(*Str)
	if !ok {
		unsupported("string expected, got %T", v.p)
	}
	return s
}

func strLen(v Val) int {
	s := v.str()
	if s.poi != "" {
		unsupported("use of opaque string (%s)", s.poi)
	}
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.c)
}

// concrete string or unsupported
func (v Val) cstr() string {
	s := v.str()
	if s.poi != "" {
		unsupported("use of opaque string (%s)", s.poi)
	}
	if s.sym != nil {
		b := make([]byte, len(s.sym))
		for i, x := range s.sym {
			if x.p != nil {
				unsupported("symbolic string where a concrete one is needed")
			}
			b[i] = byte(x.n)
		}
		return string(b)
	}
	return s.c
}

func strByte(v Val, i int) Val {
	s := v.str()
	if s.sym != nil {
		return s.sym[i]
	}
	return cv(uint64(s.c[i]))
}

func strBytes(v Val) []Val {
	s := v.str()
	if s.poi != "" {
		unsupported("use of opaque string (%s)", s.poi)
	}
	if s.sym != nil {
		return append([]Val{}, s.sym...)
	}
	out := make([]Val, len(s.c))
	for i := 0; i < len(s.c); i++ {
		out[i].n = uint64(s.c[i])
	}
	return out
}

func bytesVal(b []byte) Val {
	s := make([]Val, len(b))
	for i, x := range b {
		s[i].n = uint64(x)
	}
	return Val{p: &SliceV{s}}
}

func (v Val) slice() []Val {
	if v.p == nil {
		return nil
	}
	if sl, ok := v.p.(*SliceV); ok {
		return sl.s
	}
	switch l := v.p.(type) {
	case *LazyB:
		return l.slice()
	case *LazyView:
		return l.slice()
	}
	unsupported("slice expected, got %T", v.p)
	return nil
}

func (v Val) ptr() *Val {
	if v.p == nil {
		return nil
	}
	if q, ok := v.p.(*Val); ok {
		return q
	}
	unsupported("pointer expected, got %T", v.p)
	return nil
}

func (v Val) agg() *Agg {
	a, ok := v.p.(*Agg)
	if !ok {
		unsupported("aggregate expected, got %T", v.p)
	}
	return a
}

func tuple(vs ...Val) Val { return Val{p: &Agg{e: vs}} }

// copyVal deep-copies by-value aggregates.
func copyVal(v Val) Val {
	if a, ok := v.p.(*Agg); ok {
		e := make([]Val, len(a.e))
		for i := range a.e {
			x := a.e[i]
			if _, ok := x.p.(*Agg); ok {
				x = copyVal(x)
			}
			e[i] = x
		}
		return Val{p: &Agg{e}}
	}
	return v
}

type engErr struct{ msg string }

func unsupported(f string, a ...any) {
	panic(engErr{fmt.Sprintf(f, a...)})
}

// ---- type info ----
type kind uint8

const (
	kInvalid kind = iota
	kBool
	kInt
	kUint
	kFloat32
	kFloat64
	kString
	kPtr
	kSlice
	kArray
	kStruct
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
	kComplex
)

type TI struct {
	k    kind
	w    int32
	t    types.Type // underlying
	orig types.Type
	size int64
}

func (m *M) ti(t types.Type) *TI {
	if x, ok := m.tiCache[t]; ok {
		return x
	}
	x := &TI{t: t.Underlying(), orig: t}
	m.tiCache[t] = x
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.k, x.w = kBool, 0
		case types.Int8:
			x.k, x.w = kInt, 8
		case types.Int16:
			x.k, x.w = kInt, 16
		case types.Int32, types.UntypedRune:
			x.k, x.w = kInt, 32
		case types.Int, types.Int64, types.UntypedInt:
			x.k, x.w = kInt, 64
		case types.Uint8:
			x.k, x.w = kUint, 8
		case types.Uint16:
			x.k, x.w = kUint, 16
		case types.Uint32:
			x.k, x.w = kUint, 32
		case types.Uint, types.Uint64, types.Uintptr:
			x.k, x.w = kUint, 64
		case types.Float32:
			x.k = kFloat32
		case types.Float64, types.UntypedFloat:
			x.k = kFloat64
		case types.String, types.UntypedString:
			x.k = kString
		case types.UnsafePointer:
			x.k = kUnsafe
		case types.UntypedNil:
			x.k = kPtr
		default:
			x.k = kComplex
		}
	case *types.Pointer:
		x.k = kPtr
	case *types.Slice:
		x.k = kSlice
	case *types.Array:
		x.k = kArray
	case *types.Struct:
		x.k = kStruct
	case *types.Map:
		x.k = kMap
	case *types.Chan:
		x.k = kChan
	case *types.Signature:
		x.k = kFunc
	case *types.Interface:
		x.k = kIface
	case *types.Tuple:
		x.k = kTuple
	default:
		x.k = kInvalid
	}
	return x
}

func (m *M) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		e := make([]Val, u.NumFields())
		for i := range e {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				e[i] = m.zero(ft)
			}
		}
		return Val{p: &Agg{e}}
	case *types.Array:
		e := make([]Val, u.Len())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range e {
				e[i] = m.zero(u.Elem())
			}
		}
		return Val{p: &Agg{e}}
	case *types.Tuple:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = m.zero(u.At(i).Type())
		}
		return Val{p: &Agg{e}}
	}
	return Val{}
}

func fl(v Val) float64 { return math.Float64frombits(v.n) }
func fv(f float64) Val { return Val{n: math.Float64bits(f)} }

// ---- maps ----
type mapEntry struct {
	k, v Val
	dead bool
}

type MapObj struct {
	ents   []mapEntry
	idx    map[string]int
	live   int
	symKey int // number of live entries with symbolic keys
	kt     types.Type
}

// keyStr canonicalises a concrete key; ok=false when it has symbolic parts.
func (m *M) keyStr(v Val, t types.Type, sb *strings.Builder) bool {
	ti := m.ti(t)
	switch ti.k {
	case kBool, kInt, kUint:
		if v.p != nil {
			if _, ok := v.p.(*Term); ok {
				return false
			}
			unsupported("bad scalar key %T", v.p)
		}
		sb.WriteString(strconv.FormatUint(v.n, 36))
		sb.WriteByte(',')
		return true
	case kFloat32, kFloat64:
		if v.p != nil {
			return false
		}
		sb.WriteString(strconv.FormatUint(v.n, 36))
		sb.WriteByte(',')
		return true
	case kString:
		s := v.str()
		if s.poi != "" {
			unsupported("opaque string as map key (%s)", s.poi)
		}
		if s.sym != nil {
			for _, b := range s.sym {
				if b.p != nil {
					return false
				}
			}
			sb.WriteString(strconv.Itoa(len(s.sym)))
			sb.WriteByte(':')
			for _, b := range s.sym {
				sb.WriteByte(byte(b.n))
			}
			return true
		}
		sb.WriteString(strconv.Itoa(len(s.c)))
		sb.WriteByte(':')
		sb.WriteString(s.c)
		return true
	case kPtr, kChan, kUnsafe, kMap:
		fmt.Fprintf(sb, "%p,", v.p)
		return true
	case kStruct:
		st := ti.t.(*types.Struct)
		a := v.agg()
		for i := 0; i < st.NumFields(); i++ {
			if !m.keyStr(a.e[i], st.Field(i).Type(), sb) {
				return false
			}
		}
		return true
	case kArray:
		at := ti.t.(*types.Array)
		a := v.agg()
		for i := range a.e {
			if !m.keyStr(a.e[i], at.Elem(), sb) {
				return false
			}
		}
		return true
	case kIface:
		if v.p == nil {
			sb.WriteString("nil,")
			return true
		}
		f := v.p.(*Iface)
		fmt.Fprintf(sb, "%d/", m.typeID(f.t))
		return m.keyStr(f.v, f.t, sb)
	}
	unsupported("map key type %s", t)
	return false
}

func (m *M) mapFind(mo *MapObj, key Val) int {
	var sb strings.Builder
	if m.keyStr(key, mo.kt, &sb) {
		if mo.symKey == 0 {
			if i, ok := mo.idx[sb.String()]; ok {
				return i
			}
			return -1
		}
		if i, ok := mo.idx[sb.String()]; ok {
			// an identical concrete key exists; symbolic entries were distinct at insertion
			return i
		}
	}
	if kt := key.term(); kt != nil && kt.w <= 64 && kt.w > 1 && mo.symKey == 0 && mo.live > 12 && m.specDepth == 0 {
		// many concrete keys: is it one of them, and then which, guided by the model
		in := m.tb.False
		for i := range mo.ents {
			if e := &mo.ents[i]; !e.dead {
				in = m.tb.Or(in, m.eqTerm(e.k, key, mo.kt))
			}
		}
		if !m.decide(in) {
			return -1
		}
		v := m.concretize(key, kt.w, mo.live+1, "map key")
		var sb strings.Builder
		if m.keyStr(tv(m.tb.C(v, kt.w)), mo.kt, &sb) {
			if i, ok := mo.idx[sb.String()]; ok {
				return i
			}
		}
		unsupported("map key vanished")
	}
	for i := range mo.ents {
		e := &mo.ents[i]
		if e.dead {
			continue
		}
		c := m.eqTerm(e.k, key, mo.kt)
		if c == m.tb.True {
			return i
		}
		if c == m.tb.False {
			continue
		}
		if m.decide(c) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(mo *MapObj, key, val Val) {
	i := m.mapFind(mo, key)
	if i >= 0 {
		old := mo.ents[i].v
		mo.ents[i].v = val
		m.undo(func() { mo.ents[i].v = old })
		return
	}
	var sb strings.Builder
	conc := m.keyStr(key, mo.kt, &sb)
	mo.ents = append(mo.ents, mapEntry{k: copyVal(key), v: val})
	mo.live++
	ks := sb.String()
	if conc {
		mo.idx[ks] = len(mo.ents) - 1
	} else {
		mo.symKey++
	}
	m.undo(func() {
		mo.ents = mo.ents[:len(mo.ents)-1]
		mo.live--
		if conc {
			delete(mo.idx, ks)
		} else {
			mo.symKey--
		}
	})
}

func (m *M) mapDelete(mo *MapObj, key Val) {
	if mo == nil {
		return
	}
	i := m.mapFind(mo, key)
	if i < 0 {
		return
	}
	m.mapKill(mo, i)
}

func (m *M) mapKill(mo *MapObj, i int) {
	var sb strings.Builder
	conc := m.keyStr(mo.ents[i].k, mo.kt, &sb)
	ks := sb.String()
	mo.ents[i].dead = true
	mo.live--
	if conc {
		delete(mo.idx, ks)
	} else {
		mo.symKey--
	}
	m.undo(func() {
		mo.ents[i].dead = false
		mo.live++
		if conc {
			mo.idx[ks] = i
		} else {
			mo.symKey++
		}
	})
}

func (m *M) typeID(t types.Type) int {
	if id, ok := m.typeIDs[t]; ok {
		return id
	}
	if v := m.typeMap.At(t); v != nil {
		id := v.(int)
		m.typeIDs[t] = id
		return id
	}
	id := len(m.typeIDs) + 1
	id = m.typeMap.Len() + 1
	m.typeMap.Set(t, id)
	m.typeIDs[t] = id
	return id
}

func (m *M) sameType(a, b types.Type) bool {
	return a == b || m.typeID(a) == m.typeID(b)
}

// eqTerm: equality of two values of static type t as a Bool term.
func (m *M) eqTerm(a, b Val, t types.Type) *Term {
	tb := m.tb
	ti := m.ti(t)
	switch ti.k {
	case kBool, kInt, kUint:
		m.poisonCheck(a)
		m.poisonCheck(b)
		if a.p == nil && b.p == nil {
			return tb.Bool(a.n == b.n)
		}
		return tb.Eq(m.asT(a, ti.w), m.asT(b, ti.w))
	case kFloat32, kFloat64:
		if a.p != nil || b.p != nil {
			return m.asT(m.symFloatOp(token.EQL, a, b), 0)
		}
		return tb.Bool(fl(a) == fl(b))
	case kString:
		x, y := a.str(), b.str()
		if x.poi != "" || y.poi != "" {
			if x == y {
				return tb.True
			}
			unsupported("comparison of opaque string (%s%s)", x.poi, y.poi)
		}
		n := strLen(a)
		if n != strLen(b) {
			return tb.False
		}
		if x.sym == nil && y.sym == nil {
			return tb.Bool(x.c == y.c)
		}
		r := tb.True
		for i := n - 1; i >= 0; i-- {
			r = tb.And(tb.Eq(m.asT(strByte(a, i), 8), m.asT(strByte(b, i), 8)), r)
			if r == tb.False {
				return r
			}
		}
		return r
	case kStruct:
		st := ti.t.(*types.Struct)
		x, y := a.agg(), b.agg()
		r := tb.True
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tb.And(r, m.eqTerm(x.e[i], y.e[i], st.Field(i).Type()))
			if r == tb.False {
				return r
			}
		}
		return r
	case kArray:
		at := ti.t.(*types.Array)
		x, y := a.agg(), b.agg()
		r := tb.True
		if eti := m.ti(at.Elem()); eti.k == kUint && eti.w == 8 {
			// fast concrete mismatch scan
			for i := range x.e {
				if x.e[i].p == nil && y.e[i].p == nil && x.e[i].n != y.e[i].n {
					return tb.False
				}
			}
		}
		for i := range x.e {
			r = tb.And(r, m.eqTerm(x.e[i], y.e[i], at.Elem()))
			if r == tb.False {
				return r
			}
		}
		return r
	case kIface:
		if a.p == nil || b.p == nil {
			return tb.Bool(a.p == nil && b.p == nil)
		}
		m.poisonCheck(a)
		m.poisonCheck(b)
		x, y := a.p.(*Iface), b.p.(*Iface)
		if !m.sameType(x.t, y.t) {
			return tb.False
		}
		switch m.ti(x.t).k {
		case kSlice, kMap, kFunc:
			panic(goPanic{m.rtErr("comparing uncomparable type " + x.t.String())})
		}
		return m.eqTerm(x.v, y.v, x.t)
	case kPtr, kChan, kUnsafe:
		m.poisonCheck(a)
		m.poisonCheck(b)
		return tb.Bool(a.p == b.p && a.n == b.n)
	case kSlice, kMap, kFunc:
		// comparison with nil only
		return tb.Bool(a.p == nil && b.p == nil)
	}
	unsupported("equality on %s", t)
	return nil
}

func (m *M) poisonCheck(v Val) {
	if p, ok := v.p.(*Poison); ok {
		unsupported("use of value from unmodelled code: %s", p.why)
	}
}

// asT lifts a scalar to a term of width w.
func (m *M) asT(v Val, w int32) *Term {
	switch x := v.p.(type) {
	case nil:
		return m.tb.C(v.n, w)
	case *Term:
		return x
	case *Poison:
		unsupported("use of value from unmodelled code: %s", x.why)
	}
	unsupported("scalar expected, got %T", v.p)
	return nil
}
