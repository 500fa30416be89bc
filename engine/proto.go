package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Protocol-buffer messages: Marshal yields an opaque token that stands for the encoding of the message's fields,
// Unmarshal of a token yields an equal message (proto3: empty scalars, bytes and lists decode as absent). The wire
// format itself (a third-party library) is trusted; the conversions between core types and messages are real code.

type protoMsg struct {
	t types.Type // message struct type
	v Val        // deep copied Agg
}

type protoTab struct {
	ids  map[string]int
	msgs []*protoMsg
}

const protoMagic = "\xf8\x07PBTK"

func (m *M) protoTab() *protoTab {
	if t, ok := m.side["proto"].(*protoTab); ok {
		return t
	}
	t := &protoTab{ids: map[string]int{}}
	m.side["proto"] = t
	return t
}

func protoField(st *types.Struct, i int) bool {
	return reflect.StructTag(st.Tag(i)).Get("protobuf") != ""
}

// protoCopy normalises and deep-copies a value of a message field type, writing a canonical key.
func (m *M) protoCopy(v Val, t types.Type, sb *strings.Builder) Val {
	if p, ok := v.p.(*Poison); ok {
		unsupported("poison in message: %s", p.why)
	}
	ti := m.ti(t)
	switch ti.k {
	case kBool, kInt, kUint:
		if tm := v.term(); tm != nil {
			fmt.Fprintf(sb, "T%p,", tm)
			return v
		}
		fmt.Fprintf(sb, "%d,", v.n)
		return v
	case kFloat32, kFloat64:
		fmt.Fprintf(sb, "f%d,", v.n)
		return v
	case kString:
		for _, b := range strBytes(v) {
			if tm := b.term(); tm != nil {
				fmt.Fprintf(sb, "T%p,", tm)
			} else {
				fmt.Fprintf(sb, "%x,", b.n)
			}
		}
		sb.WriteByte(';')
		return v
	case kSlice:
		if l, ok := v.p.(*LazyB); ok && l.mat == nil {
			fmt.Fprintf(sb, "L%p,", l.t)
			return m.newLazy(l.t)
		}
		s := v.slice()
		sb.WriteByte('[')
		if len(s) == 0 {
			sb.WriteByte(']')
			return Val{}
		}
		et := ti.t.(*types.Slice).Elem()
		out := make([]Val, len(s))
		for i := range s {
			out[i] = m.protoCopy(s[i], et, sb)
		}
		sb.WriteByte(']')
		return Val{p: &SliceV{out}}
	case kPtr:
		if v.p == nil {
			sb.WriteString("nil,")
			return Val{}
		}
		et := ti.t.(*types.Pointer).Elem()
		c := m.protoCopy(*v.ptr(), et, sb)
		return Val{p: &c}
	case kStruct:
		st := ti.t.(*types.Struct)
		a := v.agg()
		z := m.zero(t)
		za := z.agg()
		sb.WriteByte('{')
		for i := 0; i < st.NumFields(); i++ {
			if protoField(st, i) {
				za.e[i] = m.protoCopy(a.e[i], st.Field(i).Type(), sb)
			}
		}
		sb.WriteByte('}')
		return z
	case kMap:
		unsupported("map field in message")
	}
	unsupported("message field of type %s", t)
	return Val{}
}

func (m *M) protoMarshal(iv Val) Val {
	if iv.p == nil {
		return tuple(Val{}, m.newError(sv("proto: Marshal called with nil")))
	}
	ifc := iv.p.(*Iface)
	pt, ok := ifc.t.Underlying().(*types.Pointer)
	if !ok || ifc.v.p == nil {
		return tuple(Val{}, m.newError(sv("proto: Marshal called with nil")))
	}
	var sb strings.Builder
	sb.WriteString(pt.Elem().String())
	base := sb.Len()
	c := m.protoCopy(*ifc.v.ptr(), pt.Elem(), &sb)
	if m.protoEmpty(c, pt.Elem()) {
		return tuple(Val{p: &SliceV{[]Val{}}}, Val{})
	}
	_ = base
	tab := m.protoTab()
	k := sb.String()
	id, ok := tab.ids[k]
	if !ok {
		id = len(tab.msgs)
		tab.ids[k] = id
		tab.msgs = append(tab.msgs, &protoMsg{pt.Elem(), c})
	}
	b := append([]byte(protoMagic), make([]byte, 8)...)
	binary.BigEndian.PutUint64(b[len(protoMagic):], uint64(id))
	return tuple(bytesVal(b), Val{})
}

func (m *M) protoEmpty(v Val, t types.Type) bool {
	st := t.Underlying().(*types.Struct)
	for i, e := range v.agg().e {
		if protoField(st, i) && (e.p != nil || e.n != 0) {
			return false
		}
	}
	return true
}

func (m *M) protoFresh(v Val, t types.Type) Val {
	var sb strings.Builder
	return m.protoCopy(v, t, &sb)
}

func (m *M) protoUnmarshal(bs []Val, iv Val) Val {
	ifc := iv.p.(*Iface)
	pt := ifc.t.Underlying().(*types.Pointer)
	dst := ifc.v.ptr()
	if len(bs) == 0 {
		m.assign(dst, m.zero(pt.Elem()))
		return Val{}
	}
	raw := make([]byte, len(bs))
	for i, b := range bs {
		if b.p != nil {
			unsupported("proto.Unmarshal of symbolic bytes")
		}
		raw[i] = byte(b.n)
	}
	if len(raw) != len(protoMagic)+8 || string(raw[:len(protoMagic)]) != protoMagic {
		unsupported("proto.Unmarshal of bytes that are not a message token")
	}
	id := binary.BigEndian.Uint64(raw[len(protoMagic):])
	tab := m.protoTab()
	if id >= uint64(len(tab.msgs)) {
		unsupported("unknown message token")
	}
	msg := tab.msgs[id]
	if !types.Identical(msg.t, pt.Elem()) {
		unsupported("message token of %s decoded as %s", msg.t, pt.Elem())
	}
	m.assign(dst, m.protoFresh(msg.v, msg.t))
	return Val{}
}

func init() {
	for _, p := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		intrinsics[p+".Marshal"] = simple(func(m *M, a []Val) Val { return m.protoMarshal(a[0]) })
		intrinsics[p+".Unmarshal"] = simple(func(m *M, a []Val) Val { return m.protoUnmarshal(a[0].slice(), a[1]) })
		intrinsics[p+".Clone"] = simple(func(m *M, a []Val) Val {
			ifc := a[0].p.(*Iface)
			if ifc.v.p == nil {
				return a[0]
			}
			pt := ifc.t.Underlying().(*types.Pointer)
			c := m.protoFresh(*ifc.v.ptr(), pt.Elem())
			return Val{p: &Iface{ifc.t, Val{p: &c}}}
		})
	}
}
