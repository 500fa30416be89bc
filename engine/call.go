package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// intrinsic implements a function natively. cNext delivers the value, cYield blocks (the call is re-executed),
// cStay means the intrinsic arranged delivery itself.
type intrinsic func(m *M, fr *Frame, a []Val) (Val, ctl)

type methKey struct {
	t types.Type
	f *types.Func
}

type callSite struct {
	m   *M
	fn  *ssa.Function
	ci  intrinsic
	cf  *CFn
	res bool
}

// resolve applies redirections and finds the intrinsic for fn.
func (m *M) resolve(fn *ssa.Function) (*ssa.Function, intrinsic) {
	if c, ok := m.intrC[fn]; ok {
		if c == nil {
			if r, ok := m.redir[fn]; ok {
				return r, nil
			}
		}
		return fn, c
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	if m.P.redirect != nil {
		if r, ok := m.P.redirect[name]; ok && m.redirectOn(name) {
			m.intrC[fn] = nil
			m.redir[fn] = r
			return r, nil
		}
	}
	it := m.intr[name]
	if it == nil {
		it = m.P.stubFor(m, fn, name)
	}
	if it == nil && fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
	}
	m.intrC[fn] = it
	return fn, it
}

func (m *M) redirectOn(name string) bool { return true }

func (m *M) compileCall(c *CFn, call *ssa.CallCommon, dst int32) instrFn {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, m.operand(c, a))
	}
	get := func(fr *Frame, extra int) []Val {
		r := make([]Val, len(args)+extra)
		for i := range args {
			r[i+extra] = args[i].get(fr)
		}
		return r
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return func(m *M, fr *Frame) ctl {
			v := m.callBuiltin(b, get(fr, 0), call.Args, fr)
			if dst >= 0 {
				fr.regs[dst] = v
			}
			return cNext
		}
	}
	if call.IsInvoke() {
		recv := m.operand(c, call.Value)
		meth := call.Method
		return func(m *M, fr *Frame) ctl {
			r := recv.get(fr)
			fn := m.lookupMethod(r, meth)
			a := get(fr, 1)
			a[0] = r.p.(*Iface).v
			return m.callFn(fr, fn, nil, a, dst, fkCall)
		}
	}
	if fn, ok := call.Value.(*ssa.Function); ok {
		var cs struct {
			done bool
			fn   *ssa.Function
			it   intrinsic
			cf   *CFn
		}
		return func(m *M, fr *Frame) ctl {
			if !cs.done {
				cs.fn, cs.it = m.resolve(fn)
				cs.done = true
			}
			a := get(fr, 0)
			if cs.it != nil {
				v, ct := cs.it(m, fr, a)
				if ct == cNext && dst >= 0 {
					fr.regs[dst] = v
				}
				return ct
			}
			if cs.cf == nil {
				if m.inInit > 0 {
					// package init calls dependency inits; those are run lazily instead
					if fn.Name() == "init" && fn.Synthetic != "" {
						m.ensureInit(fn.Pkg)
						return cNext
					}
				}
				cs.cf = m.compile(cs.fn)
			}
			m.pushFrame(cs.cf, a, nil, dst, fkCall)
			return cStay
		}
	}
	fv := m.operand(c, call.Value)
	return func(m *M, fr *Frame) ctl {
		f := fv.get(fr)
		return m.invoke(fr, f, get(fr, 0), dst, fkCall)
	}
}

func (m *M) lookupMethod(r Val, meth *types.Func) *ssa.Function {
	m.poisonCheck(r)
	if r.p == nil {
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	}
	f, ok := r.p.(*Iface)
	if !ok {
		unsupported("invoke on %T", r.p)
	}
	return m.methodOf(f.t, meth)
}

func (m *M) methodOf(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if fn, ok := m.methC[k]; ok {
		return fn
	}
	fn := m.P.lookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		unsupported("no method %s on %s", meth.Name(), t)
	}
	m.methC[k] = fn
	return fn
}

// callFn calls a static function with an optional free-variable list.
func (m *M) callFn(fr *Frame, fn *ssa.Function, free []Val, a []Val, dst int32, kind uint8) ctl {
	rf, it := m.resolve(fn)
	if it != nil {
		v, ct := it(m, fr, a)
		if ct == cNext {
			if kind == fkDefer {
				return cStay
			}
			if dst >= 0 {
				fr.regs[dst] = v
			}
		} else if ct == cYield && kind == fkDefer {
			unsupported("deferred call blocks: %s", fn)
		}
		return ct
	}
	m.pushFrame(m.compile(rf), a, free, dst, kind)
	return cStay
}

func (m *M) invoke(fr *Frame, f Val, a []Val, dst int32, kind uint8) ctl {
	if f.p == nil {
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	}
	m.poisonCheck(f)
	cl, ok := f.p.(*Closure)
	if !ok {
		unsupported("call of %T", f.p)
	}
	if cl.nat != nil {
		v := cl.nat(m, a)
		if dst >= 0 && kind != fkDefer {
			fr.regs[dst] = v
		}
		if kind == fkDefer {
			return cStay
		}
		return cNext
	}
	if cl.bi != nil {
		v := m.callBuiltin(cl.bi, a, nil, fr)
		if dst >= 0 && kind != fkDefer {
			fr.regs[dst] = v
		}
		if kind == fkDefer {
			return cStay
		}
		return cNext
	}
	return m.callFn(fr, cl.fn, cl.free, a, dst, kind)
}

func (m *M) compileDefer(c *CFn, x *ssa.Defer) instrFn {
	call := &x.Call
	var args []opnd
	for _, a := range call.Args {
		args = append(args, m.operand(c, a))
	}
	if x.DeferStack != nil {
		return func(m *M, fr *Frame) ctl { unsupported("defer in range-over-func"); return cNext }
	}
	bi, _ := call.Value.(*ssa.Builtin)
	inv := call.IsInvoke()
	var fv opnd
	if bi == nil {
		fv = m.operand(c, call.Value)
	}
	meth := call.Method
	return func(m *M, fr *Frame) ctl {
		d := &deferRec{next: fr.defers, bi: bi}
		if inv {
			r := fv.get(fr)
			fn := m.lookupMethod(r, meth)
			d.fn = Val{p: &Closure{fn: fn}}
			d.args = append(d.args, r.p.(*Iface).v)
		} else if bi == nil {
			d.fn = fv.get(fr)
		}
		for i := range args {
			d.args = append(d.args, args[i].get(fr))
		}
		if bi != nil {
			d.args2 = call.Args
		}
		fr.defers = d
		return cNext
	}
}

func (m *M) compileGo(c *CFn, x *ssa.Go) instrFn {
	call := &x.Call
	var args []opnd
	for _, a := range call.Args {
		args = append(args, m.operand(c, a))
	}
	inv := call.IsInvoke()
	fv := m.operand(c, call.Value)
	meth := call.Method
	return func(m *M, fr *Frame) ctl {
		if m.inInit > 0 {
			return cNext // background goroutines started by package init are not modelled
		}
		var a []Val
		f := fv.get(fr)
		var fn *ssa.Function
		var free []Val
		if inv {
			fn = m.lookupMethod(f, meth)
			a = append(a, f.p.(*Iface).v)
		} else {
			m.poisonCheck(f)
			cl, ok := f.p.(*Closure)
			if !ok || cl.fn == nil {
				unsupported("go statement on %T", f.p)
			}
			fn, free = cl.fn, cl.free
		}
		for i := range args {
			a = append(a, args[i].get(fr))
		}
		rf, it := m.resolve(fn)
		if it != nil {
			return cNext
		}
		cf := m.compile(rf)
		m.nextGor++
		g := &Gor{id: m.nextGor}
		nf := &Frame{f: cf, regs: make([]Val, cf.nregs), dst: -1, kind: fkRoot}
		for i, r := range cf.params {
			nf.regs[r] = a[i]
		}
		for i, r := range cf.free {
			nf.regs[r] = free[i]
		}
		g.frames = []*Frame{nf}
		// gs is restored from the choice snapshot on backtracking
		m.gs = append(m.gs[:len(m.gs):len(m.gs)], g)
		return cNext
	}
}

// ownAt returns a writable frame at index i of the current goroutine.
func (m *M) ownAt(i int) *Frame {
	g := m.gs[m.cur]
	fr := g.frames[i]
	if fr.shared {
		c := *fr
		c.regs = append([]Val{}, fr.regs...)
		c.shared = false
		g.frames[i] = &c
		return &c
	}
	return fr
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, need, esz int) int {
	newcap := oldCap
	dbl := newcap + newcap
	if need > dbl {
		newcap = need
	} else if oldCap < 256 {
		newcap = dbl
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz == 0 {
		return need
	}
	return roundSize(newcap*esz) / esz
}

func (m *M) sizeof(t types.Type) int {
	return int(m.P.sizes.Sizeof(t))
}

func (m *M) appendVals(base Val, add []Val, et types.Type) Val {
	s := base.slice()
	if len(add) == 0 {
		return base
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			m.assign(&r[len(s)+i], v)
		}
		return Val{p: &SliceV{r}}
	}
	esz := m.sizeof(et)
	nc := growCap(cap(s), n, esz)
	if nc < n {
		nc = n
	}
	if nc > 1<<26 {
		m.E.bound("slice too large")
		panic(pathEnd{"bound"})
	}
	r := make([]Val, n, nc)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if nc > n {
		m.fillZero(r[n:nc], et)
	}
	return Val{p: &SliceV{r}}
}

func (m *M) callBuiltin(b *ssa.Builtin, a []Val, sargs []ssa.Value, fr *Frame) Val {
	sig, _ := b.Type().(*types.Signature)
	switch b.Name() {
	case "len":
		m.poisonCheck(a[0])
		switch x := a[0].p.(type) {
		case nil:
			if sig != nil {
				switch u := sig.Params().At(0).Type().Underlying().(type) {
				case *types.Array:
					return cv(uint64(u.Len()))
				case *types.Pointer:
					if ar, ok := u.Elem().Underlying().(*types.Array); ok {
						return cv(uint64(ar.Len()))
					}
				}
			}
			return cv(0)
		case *Str:
			return cv(uint64(strLen(a[0])))
		case *SliceV:
			return cv(uint64(len(x.s)))
		case *LazyB:
			if x.mat != nil {
				return cv(uint64(len(x.mat.s)))
			}
			return tv(x.len)
		case *LazyView:
			return cv(uint64(len(a[0].slice())))
		case *MapObj:
			return cv(uint64(x.live))
		case *Chan:
			return cv(uint64(len(x.buf)))
		case *Agg:
			return cv(uint64(len(x.e)))
		case *Val:
			return cv(uint64(len(x.agg().e)))
		}
		unsupported("len of %T", a[0].p)
	case "cap":
		m.poisonCheck(a[0])
		switch x := a[0].p.(type) {
		case nil:
			return cv(0)
		case *SliceV:
			return cv(uint64(cap(x.s)))
		case *LazyB, *LazyView:
			return cv(uint64(cap(a[0].slice())))
		case *Chan:
			return cv(uint64(x.cap))
		case *Agg:
			return cv(uint64(len(x.e)))
		case *Val:
			return cv(uint64(len(x.agg().e)))
		}
		unsupported("cap of %T", a[0].p)
	case "append":
		m.poisonCheck(a[0])
		m.poisonCheck(a[1])
		et := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		var add []Val
		if _, ok := a[1].p.(*Str); ok {
			add = strBytes(a[1])
		} else {
			add = a[1].slice()
		}
		return m.appendVals(a[0], add, et)
	case "copy":
		if lv, ok := a[0].p.(*LazyView); ok {
			if l, ok := a[1].p.(*LazyB); ok {
				if r, ok := m.lazyCopy(lv, l); ok {
					return r
				}
			}
		}
		dst := a[0].slice()
		var src []Val
		if _, ok := a[1].p.(*Str); ok {
			src = strBytes(a[1])
		} else {
			src = a[1].slice()
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n == 0 {
			return cv(0)
		}
		if &dst[0] == &src[0] {
			return cv(uint64(n))
		}
		// overlap safe
		overlap := uintptr(unsafe.Pointer(&dst[0])) > uintptr(unsafe.Pointer(&src[0]))
		if overlap {
			for i := n - 1; i >= 0; i-- {
				m.assign(&dst[i], src[i])
			}
		} else {
			for i := 0; i < n; i++ {
				m.assign(&dst[i], src[i])
			}
		}
		return cv(uint64(n))
	case "delete":
		m.poisonCheck(a[0])
		if a[0].p != nil {
			m.mapDelete(a[0].p.(*MapObj), a[1])
		}
		return Val{}
	case "clear":
		switch x := a[0].p.(type) {
		case nil:
		case *MapObj:
			for i := range x.ents {
				if !x.ents[i].dead {
					m.mapKill(x, i)
				}
			}
		case *SliceV:
			et := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x.s {
				m.assign(&x.s[i], m.zero(et))
			}
		}
		return Val{}
	case "close":
		if a[0].p == nil {
			panic(goPanic{m.rtErr("close of nil channel")})
		}
		ch := a[0].p.(*Chan)
		if ch.closed {
			panic(goPanic{m.rtErr("close of closed channel")})
		}
		ch.closed = true
		m.undo(func() { ch.closed = false })
		return Val{}
	case "panic":
		panic(goPanic{a[0]})
	case "recover":
		g := m.gs[m.cur]
		i := len(g.frames) - 1
		if i < 1 || g.frames[i].kind != fkDefer {
			return Val{}
		}
		c := g.frames[i-1]
		if c.panicking == nil || c.panicking.recovered {
			return Val{}
		}
		c = m.ownAt(i - 1)
		p := *c.panicking
		p.recovered = true
		c.panicking = &p
		if p.val.p == nil && p.val.n == 0 {
			return m.rtErr("panic called with nil argument")
		}
		return p.val
	case "print", "println":
		return Val{}
	case "min", "max":
		t := sig.Params().At(0).Type()
		ti := m.ti(t)
		r := a[0]
		for _, v := range a[1:] {
			var lt Val
			switch ti.k {
			case kInt:
				lt = tv(m.tb.SLt(m.asT(v, ti.w), m.asT(r, ti.w)))
			case kUint:
				lt = tv(m.tb.ULt(m.asT(v, ti.w), m.asT(r, ti.w)))
			case kFloat32, kFloat64:
				if v.p != nil || r.p != nil {
					unsupported("symbolic float min/max")
				}
				lt = bv(fl(v) < fl(r))
			default:
				unsupported("min/max on %s", t)
			}
			c := m.asT(lt, 0)
			if b.Name() == "max" {
				c = m.tb.Not(c)
			}
			if c.isC() {
				if c.u != 0 {
					r = v
				}
			} else {
				r = tv(m.tb.Ite(c, m.asT(v, ti.w), m.asT(r, ti.w)))
			}
		}
		return r
	case "String": // unsafe.String
		n := int(m.concretize(a[1], 64, 2000, "unsafe.String len"))
		if n == 0 {
			return Val{}
		}
		return strVal(unsafe.Slice(m.derefPtr(a[0]), n))
	case "StringData":
		bs := strBytes(a[0])
		if len(bs) == 0 {
			return Val{}
		}
		return Val{p: &bs[0]}
	case "Slice":
		n := int(m.concretize(a[1], 64, 2000, "unsafe.Slice len"))
		if a[0].p == nil {
			return Val{}
		}
		return Val{p: &SliceV{unsafe.Slice(m.derefPtr(a[0]), n)}}
	case "SliceData":
		s := a[0].slice()
		if cap(s) == 0 {
			return Val{}
		}
		return Val{p: &s[:1][0]}
	case "Add":
		if a[1].p == nil && a[1].n == 0 {
			return a[0]
		}
	case "ssa:wrapnilchk":
		if a[0].p == nil {
			panic(goPanic{m.rtErr(fmt.Sprintf("value method %s.%s called using nil pointer", a[1].cstr(), a[2].cstr()))})
		}
		return a[0]
	case "real", "imag", "complex":
	}
	unsupported("builtin %s", b.Name())
	return Val{}
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}
