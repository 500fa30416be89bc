package main

import (
	"encoding/json"
	"go/types"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// A subset of package reflect on machine values, JSON decoding of concrete text, and regular expressions on concrete text.

type RVal struct {
	t    types.Type
	v    Val
	addr *Val
}

func (r *RVal) get() Val {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func rv(t types.Type, v Val) Val         { return tuple(Val{p: &RVal{t: t, v: v}}, Val{}, Val{}) }
func rvAddr(t types.Type, addr *Val) Val { return tuple(Val{p: &RVal{t: t, addr: addr}}, Val{}, Val{}) }
func rvNone() Val                        { return tuple(Val{}, Val{}, Val{}) }
func (m *M) rvOf(v Val) *RVal {
	r, ok := v.agg().e[0].p.(*RVal)
	if !ok {
		return nil
	}
	return r
}

func (m *M) rvMust(v Val, what string) *RVal {
	r := m.rvOf(v)
	if r == nil {
		panic(goPanic{m.rtErr("reflect: call of reflect.Value." + what + " on zero Value")})
	}
	return r
}

func (m *M) rtypes() (*typeutil.Map, map[*Val]types.Type) {
	a, _ := m.side["rtypes"].(*typeutil.Map)
	if a == nil {
		a = new(typeutil.Map)
		m.side["rtypes"] = a
		m.side["rtypesBack"] = map[*Val]types.Type{}
	}
	return a, m.side["rtypesBack"].(map[*Val]types.Type)
}

// rtype is the reflect.Type of t as an interface value.
func (m *M) rtype(t types.Type) Val {
	p := m.P.byPath["reflect"]
	if p == nil || p.Type("rtype") == nil {
		unsupported("reflect not loaded")
	}
	mp, back := m.rtypes()
	c, _ := mp.At(t).(*Val)
	if c == nil {
		c = &Val{n: uint64(mp.Len() + 1)}
		mp.Set(t, c)
		back[c] = t
	}
	return Val{p: &Iface{m.ptrTo(p.Type("rtype").Type()), Val{p: c}}}
}

func (m *M) typeOfR(v Val) types.Type {
	if i, ok := v.p.(*Iface); ok {
		v = i.v
	}
	_, back := m.rtypes()
	t := back[v.ptr()]
	if t == nil {
		unsupported("unknown reflect.Type")
	}
	return t
}

func (m *M) rkind(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return uint64(reflect.Bool)
		case types.Int:
			return uint64(reflect.Int)
		case types.Int8:
			return uint64(reflect.Int8)
		case types.Int16:
			return uint64(reflect.Int16)
		case types.Int32:
			return uint64(reflect.Int32)
		case types.Int64:
			return uint64(reflect.Int64)
		case types.Uint:
			return uint64(reflect.Uint)
		case types.Uint8:
			return uint64(reflect.Uint8)
		case types.Uint16:
			return uint64(reflect.Uint16)
		case types.Uint32:
			return uint64(reflect.Uint32)
		case types.Uint64:
			return uint64(reflect.Uint64)
		case types.Uintptr:
			return uint64(reflect.Uintptr)
		case types.Float32:
			return uint64(reflect.Float32)
		case types.Float64:
			return uint64(reflect.Float64)
		case types.String:
			return uint64(reflect.String)
		case types.UnsafePointer:
			return uint64(reflect.UnsafePointer)
		}
	case *types.Pointer:
		return uint64(reflect.Ptr)
	case *types.Slice:
		return uint64(reflect.Slice)
	case *types.Array:
		return uint64(reflect.Array)
	case *types.Struct:
		return uint64(reflect.Struct)
	case *types.Map:
		return uint64(reflect.Map)
	case *types.Chan:
		return uint64(reflect.Chan)
	case *types.Signature:
		return uint64(reflect.Func)
	case *types.Interface:
		return uint64(reflect.Interface)
	}
	unsupported("reflect kind of %s", t)
	return 0
}

func (m *M) elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	panic(goPanic{m.rtErr("reflect: Elem of invalid type")})
}

// rvalElems are the element cells of a slice or array value.
func (m *M) rvElems(r *RVal) []Val {
	switch r.t.Underlying().(type) {
	case *types.Slice:
		return r.get().slice()
	case *types.Array:
		return r.get().agg().e
	}
	unsupported("elements of %s", r.t)
	return nil
}

func (m *M) rvIface(r *RVal) Val {
	if types.IsInterface(r.t) {
		return r.get()
	}
	return Val{p: &Iface{r.t, copyVal(r.get())}}
}

func cint(v Val, what string) int {
	if v.p != nil {
		unsupported("symbolic %s", what)
	}
	return int(int64(v.n))
}

func init() {
	set := func(n string, f func(m *M, a []Val) Val) { intrinsics[n] = simple(f) }
	val := func(n string, f func(m *M, r *RVal, a []Val) Val) {
		intrinsics["(reflect.Value)."+n] = simple(func(m *M, a []Val) Val { return f(m, m.rvMust(a[0], n), a[1:]) })
	}
	typ := func(n string, f func(m *M, t types.Type, a []Val) Val) {
		intrinsics["(*reflect.rtype)."+n] = simple(func(m *M, a []Val) Val { return f(m, m.typeOfR(a[0]), a[1:]) })
	}
	valueOf := func(m *M, v Val) Val {
		if v.p == nil {
			return rvNone()
		}
		i, ok := v.p.(*Iface)
		if !ok {
			m.poisonCheck(v)
			unsupported("reflect.ValueOf %T", v.p)
		}
		return rv(i.t, i.v)
	}
	set("reflect.ValueOf", func(m *M, a []Val) Val { return valueOf(m, a[0]) })
	set("reflect.TypeOf", func(m *M, a []Val) Val {
		if a[0].p == nil {
			return Val{}
		}
		return m.rtype(a[0].p.(*Iface).t)
	})
	set("reflect.New", func(m *M, a []Val) Val {
		t := m.typeOfR(a[0])
		z := m.zero(t)
		return rv(m.ptrTo(t), Val{p: &z})
	})
	set("reflect.Zero", func(m *M, a []Val) Val { t := m.typeOfR(a[0]); return rv(t, m.zero(t)) })
	set("reflect.MakeSlice", func(m *M, a []Val) Val {
		t := m.typeOfR(a[0])
		n := int(m.concretize(a[1], 64, 300, "slice length"))
		if n < 0 || n > 1<<20 {
			unsupported("reflect.MakeSlice of %d", n)
		}
		s := make([]Val, n, max(n, int(m.concretize(a[2], 64, 300, "slice capacity"))))
		for i := range s {
			s[i] = m.zero(m.elemType(t))
		}
		return rv(t, Val{p: &SliceV{s}})
	})
	set("reflect.SliceOf", func(m *M, a []Val) Val { return m.rtype(types.NewSlice(m.typeOfR(a[0]))) })
	set("reflect.ArrayOf", func(m *M, a []Val) Val {
		return m.rtype(types.NewArray(m.typeOfR(a[1]), int64(cint(a[0], "array length"))))
	})
	set("reflect.PtrTo", func(m *M, a []Val) Val { return m.rtype(m.ptrTo(m.typeOfR(a[0]))) })
	set("reflect.PointerTo", intr1(func(m *M, a []Val) Val { return m.rtype(m.ptrTo(m.typeOfR(a[0]))) }))
	set("reflect.Copy", func(m *M, a []Val) Val {
		d, s := m.rvElems(m.rvMust(a[0], "Copy")), m.rvElems(m.rvMust(a[1], "Copy"))
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		for i := 0; i < n; i++ {
			m.assign(&d[i], copyVal(s[i]))
		}
		return cv(uint64(n))
	})
	set("reflect.Indirect", func(m *M, a []Val) Val {
		r := m.rvOf(a[0])
		if r == nil {
			return a[0]
		}
		if pt, ok := r.t.Underlying().(*types.Pointer); ok {
			if p := r.get().ptr(); p != nil {
				return rvAddr(pt.Elem(), p)
			}
			return rvNone()
		}
		return a[0]
	})
	set("(reflect.Value).IsValid", func(m *M, a []Val) Val { return bv(m.rvOf(a[0]) != nil) })
	set("(reflect.Value).Kind", func(m *M, a []Val) Val {
		r := m.rvOf(a[0])
		if r == nil {
			return cv(0)
		}
		return cv(m.rkind(r.t))
	})
	val("Type", func(m *M, r *RVal, a []Val) Val { return m.rtype(r.t) })
	val("CanSet", func(m *M, r *RVal, a []Val) Val { return bv(r.addr != nil) })
	val("CanAddr", func(m *M, r *RVal, a []Val) Val { return bv(r.addr != nil) })
	val("CanInterface", func(m *M, r *RVal, a []Val) Val { return bv(true) })
	val("IsNil", func(m *M, r *RVal, a []Val) Val {
		switch r.t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			v := r.get()
			m.poisonCheck(v)
			return bv(v.p == nil && v.n == 0)
		}
		panic(goPanic{m.rtErr("reflect: call of reflect.Value.IsNil on a value that cannot be nil")})
	})
	val("Elem", func(m *M, r *RVal, a []Val) Val {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p := r.get().ptr()
			if p == nil {
				return rvNone()
			}
			return rvAddr(u.Elem(), p)
		case *types.Interface:
			return valueOf(m, r.get())
		}
		panic(goPanic{m.rtErr("reflect: call of reflect.Value.Elem on a value that is no pointer")})
	})
	val("Addr", func(m *M, r *RVal, a []Val) Val {
		if r.addr == nil {
			panic(goPanic{m.rtErr("reflect.Value.Addr of unaddressable value")})
		}
		return rv(m.ptrTo(r.t), Val{p: r.addr})
	})
	val("Interface", func(m *M, r *RVal, a []Val) Val { return m.rvIface(r) })
	val("Len", func(m *M, r *RVal, a []Val) Val {
		switch r.t.Underlying().(type) {
		case *types.Basic:
			return cv(uint64(strLen(r.get())))
		case *types.Map:
			if r.get().p == nil {
				return cv(0)
			}
			return cv(uint64(r.get().p.(*MapObj).live))
		}
		return cv(uint64(len(m.rvElems(r))))
	})
	val("Index", func(m *M, r *RVal, a []Val) Val {
		i := cint(a[0], "reflect index")
		e := m.rvElems(r)
		if i < 0 || i >= len(e) {
			panic(goPanic{m.rtErr("reflect: index out of range")})
		}
		if _, ok := r.t.Underlying().(*types.Array); ok && r.addr == nil {
			return rv(m.elemType(r.t), e[i])
		}
		return rvAddr(m.elemType(r.t), &e[i])
	})
	field := func(m *M, r *RVal, i int) Val {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			panic(goPanic{m.rtErr("reflect: field of a value that is no struct")})
		}
		e := r.get().agg().e
		if r.addr != nil {
			return rvAddr(st.Field(i).Type(), &e[i])
		}
		return rv(st.Field(i).Type(), e[i])
	}
	val("Field", func(m *M, r *RVal, a []Val) Val { return field(m, r, cint(a[0], "field index")) })
	val("NumField", func(m *M, r *RVal, a []Val) Val { return cv(uint64(r.t.Underlying().(*types.Struct).NumFields())) })
	val("FieldByName", func(m *M, r *RVal, a []Val) Val {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			panic(goPanic{m.rtErr("reflect: field of a value that is no struct")})
		}
		n := a[0].cstr()
		obj, path, _ := types.LookupFieldOrMethod(r.t, true, nil, n)
		if f, ok := obj.(*types.Var); !ok || !f.IsField() {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n { // not exported
					return field(m, r, i)
				}
			}
			return rvNone()
		}
		for k, i := range path {
			v := field(m, r, i)
			if k == len(path)-1 {
				return v
			}
			r = m.rvMust(v, "FieldByName")
			if _, ok := r.t.Underlying().(*types.Pointer); ok {
				unsupported("field of an embedded pointer by reflection")
			}
		}
		return rvNone()
	})
	val("Set", func(m *M, r *RVal, a []Val) Val {
		x := m.rvMust(a[0], "Set")
		if r.addr == nil {
			panic(goPanic{m.rtErr("reflect.Value.Set using unaddressable value")})
		}
		if types.IsInterface(r.t) {
			m.assign(r.addr, m.rvIface(x))
			return Val{}
		}
		if !types.AssignableTo(x.t, r.t) {
			panic(goPanic{m.rtErr("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())})
		}
		m.assign(r.addr, copyVal(x.get()))
		return Val{}
	})
	for _, n := range []string{"SetString", "SetBool", "SetInt", "SetUint", "SetBytes"} {
		val(n, func(m *M, r *RVal, a []Val) Val {
			if r.addr == nil {
				panic(goPanic{m.rtErr("reflect.Value.Set using unaddressable value")})
			}
			v := a[0]
			if ti := m.ti(r.t); ti.k == kInt || ti.k == kUint {
				v = m.trunc(v, ti.w)
			}
			m.set(r.addr, v)
			return Val{}
		})
	}
	val("Bytes", func(m *M, r *RVal, a []Val) Val {
		if _, ok := r.t.Underlying().(*types.Array); ok {
			return Val{p: &SliceV{r.get().agg().e}}
		}
		return r.get()
	})
	val("String", func(m *M, r *RVal, a []Val) Val {
		if m.ti(r.t).k != kString {
			return sv("<" + r.t.String() + " Value>")
		}
		return r.get()
	})
	val("Bool", func(m *M, r *RVal, a []Val) Val { return r.get() })
	val("Uint", func(m *M, r *RVal, a []Val) Val {
		v := r.get()
		if t := v.term(); t != nil {
			return tv(m.tb.ZExt(t, 64))
		}
		return v
	})
	val("Int", func(m *M, r *RVal, a []Val) Val {
		v := r.get()
		if t := v.term(); t != nil {
			return tv(m.tb.SExt(t, 64))
		}
		return cv(uint64(sx(v.n, m.ti(r.t).w)))
	})
	typ("Kind", func(m *M, t types.Type, a []Val) Val { return cv(m.rkind(t)) })
	typ("Elem", func(m *M, t types.Type, a []Val) Val { return m.rtype(m.elemType(t)) })
	typ("Len", func(m *M, t types.Type, a []Val) Val { return cv(uint64(t.Underlying().(*types.Array).Len())) })
	typ("NumField", func(m *M, t types.Type, a []Val) Val {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(goPanic{m.rtErr("reflect: NumField of non-struct type")})
		}
		return cv(uint64(st.NumFields()))
	})
	typ("Field", func(m *M, t types.Type, a []Val) Val {
		st := t.Underlying().(*types.Struct)
		i := cint(a[0], "field index")
		f := st.Field(i)
		sf := m.P.byPath["reflect"].Type("StructField").Type()
		z := m.zero(sf)
		pp := ""
		if !f.Exported() && f.Pkg() != nil {
			pp = f.Pkg().Path()
		}
		e := z.agg().e
		for k, fs := 0, sf.Underlying().(*types.Struct); k < fs.NumFields(); k++ {
			switch fs.Field(k).Name() {
			case "Name":
				e[k] = sv(f.Name())
			case "PkgPath":
				e[k] = sv(pp)
			case "Type":
				e[k] = m.rtype(f.Type())
			case "Tag":
				e[k] = sv(st.Tag(i))
			case "Anonymous":
				e[k] = bv(f.Embedded())
			}
		}
		return z
	})
	typ("String", func(m *M, t types.Type, a []Val) Val {
		return sv(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	typ("Name", func(m *M, t types.Type, a []Val) Val {
		switch n := t.(type) {
		case *types.Named:
			return sv(n.Obj().Name())
		case *types.Basic:
			return sv(n.Name())
		}
		return Val{}
	})
	typ("AssignableTo", func(m *M, t types.Type, a []Val) Val { return bv(types.AssignableTo(t, m.typeOfR(a[0]))) })
	typ("ConvertibleTo", func(m *M, t types.Type, a []Val) Val { return bv(types.ConvertibleTo(t, m.typeOfR(a[0]))) })

	set("encoding/json.Unmarshal", func(m *M, a []Val) Val {
		raw, ok := m.goVal(a[0], types.NewSlice(types.Typ[types.Uint8]))
		if !ok {
			unsupported("json.Unmarshal of symbolic text")
		}
		return m.jsonTop(raw.([]byte), a[1])
	})
	set("(*encoding/json.Decoder).Decode", func(m *M, a []Val) Val {
		d := m.derefPtr(a[0]).agg().e[0]
		i, ok := d.p.(*Iface)
		if !ok || i.t.String() != "*strings.Reader" {
			unsupported("json decoding from %T", d.p)
		}
		rd := m.derefPtr(i.v).agg().e
		return m.jsonTop([]byte(rd[0].cstr()[cint(rd[1], "reader position"):]), a[1])
	})

	set("regexp.MustCompile", func(m *M, a []Val) Val {
		c := Val{p: &NatObj{regexp.MustCompile(a[0].cstr())}}
		return Val{p: &c}
	})
	set("regexp.MatchString", func(m *M, a []Val) Val {
		ok, err := regexp.MatchString(a[0].cstr(), a[1].cstr())
		if err != nil {
			return tuple(bv(false), m.newError(sv(err.Error())))
		}
		return tuple(bv(ok), Val{})
	})
	re := func(n string, f func(m *M, r *regexp.Regexp, a []Val) Val) {
		intrinsics["(*regexp.Regexp)."+n] = simple(func(m *M, a []Val) Val {
			return f(m, m.derefPtr(a[0]).p.(*NatObj).x.(*regexp.Regexp), a[1:])
		})
	}
	strs := func(s []string) Val {
		if s == nil {
			return Val{}
		}
		o := make([]Val, len(s))
		for i, x := range s {
			o[i] = sv(x)
		}
		return Val{p: &SliceV{o}}
	}
	re("MatchString", func(m *M, r *regexp.Regexp, a []Val) Val { return bv(r.MatchString(a[0].cstr())) })
	re("FindString", func(m *M, r *regexp.Regexp, a []Val) Val { return sv(r.FindString(a[0].cstr())) })
	re("FindAllString", func(m *M, r *regexp.Regexp, a []Val) Val {
		return strs(r.FindAllString(a[0].cstr(), cint(a[1], "count")))
	})
	re("FindStringSubmatch", func(m *M, r *regexp.Regexp, a []Val) Val { return strs(r.FindStringSubmatch(a[0].cstr())) })
	re("FindAllStringSubmatch", func(m *M, r *regexp.Regexp, a []Val) Val {
		all := r.FindAllStringSubmatch(a[0].cstr(), cint(a[1], "count"))
		if all == nil {
			return Val{}
		}
		o := make([]Val, len(all))
		for i, x := range all {
			o[i] = strs(x)
		}
		return Val{p: &SliceV{o}}
	})
	re("ReplaceAllString", func(m *M, r *regexp.Regexp, a []Val) Val {
		return sv(r.ReplaceAllString(a[0].cstr(), a[1].cstr()))
	})
}

func intr1(f func(m *M, a []Val) Val) func(m *M, a []Val) Val { return f }

// NatObj holds a native Go value inside a machine cell.
type NatObj struct{ x any }

func (m *M) trunc(v Val, w int32) Val {
	if t := v.term(); t != nil {
		if t.w > w {
			return tv(m.tb.Extract(t, w-1, 0))
		}
		return v
	}
	if w < 64 {
		v.n &= 1<<uint(w) - 1
	}
	return v
}

func (m *M) jsonTop(raw []byte, dst Val) Val {
	i, ok := dst.p.(*Iface)
	if !ok {
		unsupported("json into %T", dst.p)
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok || i.v.p == nil {
		return m.newError(sv("json: Unmarshal(nil)"))
	}
	return m.jsonInto(raw, i.v.ptr(), pt.Elem())
}

func (m *M) jsonInto(raw []byte, dst *Val, t types.Type) Val {
	fail := func(err error) Val { return m.newError(sv(err.Error())) }
	if fn := m.P.lookupMethod(m.ptrTo(t), nil, "UnmarshalJSON"); fn != nil {
		return m.callNested(fn, []Val{{p: dst}, bytesVal(raw)})
	}
	if string(raw) == "null" {
		return Val{}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var f map[string]json.RawMessage
		if err := json.Unmarshal(raw, &f); err != nil {
			return fail(err)
		}
		cells := dst.agg().e
		for k := 0; k < u.NumFields(); k++ {
			if !u.Field(k).Exported() {
				continue
			}
			name := strings.Split(reflect.StructTag(u.Tag(k)).Get("json"), ",")[0]
			if name == "-" {
				continue
			}
			if name == "" {
				name = u.Field(k).Name()
			}
			for key, r := range f {
				if strings.EqualFold(key, name) {
					if e := m.jsonInto(r, &cells[k], u.Field(k).Type()); e.p != nil {
						return e
					}
				}
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			var x []byte
			if err := json.Unmarshal(raw, &x); err != nil {
				return fail(err)
			}
			m.set(dst, bytesVal(x))
			return Val{}
		}
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			return fail(err)
		}
		o := make([]Val, len(l))
		for k := range l {
			o[k] = m.zero(u.Elem())
			if e := m.jsonInto(l[k], &o[k], u.Elem()); e.p != nil {
				return e
			}
		}
		m.set(dst, Val{p: &SliceV{o}})
	case *types.Pointer:
		z := m.zero(u.Elem())
		if e := m.jsonInto(raw, &z, u.Elem()); e.p != nil {
			return e
		}
		m.set(dst, Val{p: &z})
	case *types.Basic:
		ti := m.ti(t)
		switch ti.k {
		case kString:
			var s string
			if err := json.Unmarshal(raw, &s); err != nil {
				return fail(err)
			}
			m.set(dst, sv(s))
		case kBool:
			var b bool
			if err := json.Unmarshal(raw, &b); err != nil {
				return fail(err)
			}
			m.set(dst, bv(b))
		case kInt:
			var n int64
			if err := json.Unmarshal(raw, &n); err != nil {
				return fail(err)
			}
			m.set(dst, m.trunc(cv(uint64(n)), ti.w))
		case kUint:
			var n uint64
			if err := json.Unmarshal(raw, &n); err != nil {
				return fail(err)
			}
			m.set(dst, m.trunc(cv(n), ti.w))
		default:
			unsupported("json into %s", t)
		}
	default:
		unsupported("json into %s", t)
	}
	return Val{}
}

// callNested runs a function on concrete data to completion.
func (m *M) callNested(f *ssa.Function, args []Val) Val {
	sg, sc, st := m.gs, m.cur, m.steps
	slen := m.lenient
	iT, iP, iD, iO, iR, iV := m.iTrail, m.iPC, m.iDec, m.iObs, m.iReach, m.iVars
	g := &Gor{}
	defer func() {
		m.inInit--
		m.lenient = slen
		m.gs, m.cur, m.steps = sg, sc, st
		m.iTrail, m.iPC, m.iDec, m.iObs, m.iReach, m.iVars = iT, iP, iD, iO, iR, iV
	}()
	m.inInit++
	m.lenient = false
	m.gs = []*Gor{g}
	m.cur = 0
	m.pushFrame(m.compile(f), args, nil, -1, fkRoot)
	m.loop(func() bool { return g.done })
	return g.retv
}
