package abi

import (
	"math/big"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func verifArgs(ts ...string) Arguments {
	var r Arguments
	for i, t := range ts {
		typ, err := NewType(t)
		if err != nil {
			panic(err)
		}
		r = append(r, Argument{Name: string(rune('a' + i)), Type: typ})
	}
	return r
}

func verifWord(tail ...byte) []byte { return append(make([]byte, 32-len(tail)), tail...) }

func verifRight(head []byte) []byte {
	r := append([]byte{}, head...)
	for len(r)%32 != 0 {
		r = append(r, 0)
	}
	return r
}

func verifFill(n int, b byte) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = b
	}
	return r
}

// a value of a type with its specified encoding: a head word (static types) or a tail (dynamic types)
type verifVal struct {
	v       interface{}
	head    []byte
	tail    []byte
	dynamic bool
	same    func(got interface{}) bool
}

var verifTypes = []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "uint256", "int256", "bool", "address", "gid", "tokenId", "bytes32", "bytes5",
	"string", "bytes", "uint8[]", "address[]", "uint256[]", "bytes32[]", "tokenId[2]", "uint64[2]", "bool[1]"}

func verifBE(v uint64, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[n-1-i] = byte(v >> uint(8*i))
	}
	return r
}

// verifMake makes any value of the type.
func verifMake(t, name string) *verifVal {
	if i := strings.Index(t, "["); i >= 0 {
		n := -1
		if t[i+1] != ']' {
			n = int(t[i+1] - '0')
		}
		dyn := n < 0
		if dyn {
			n = sym.Choose(name+" elements", 3)
		}
		var els []*verifVal
		for k := 0; k < n; k++ {
			els = append(els, verifMake(t[:i], name+string(rune('0'+k))))
		}
		r := &verifVal{dynamic: dyn}
		var enc []byte
		for _, e := range els {
			enc = append(enc, e.head...)
		}
		if dyn {
			r.tail = append(verifWord(byte(n)), enc...)
		} else {
			r.head = enc
		}
		switch t {
		case "uint8[]":
			v := []uint8{}
			for _, e := range els {
				v = append(v, e.v.(uint8))
			}
			r.v = v
			r.same = func(g interface{}) bool { return sym.EqBytes(g.([]uint8), v) }
		case "address[]":
			v := []types.Address{}
			for _, e := range els {
				v = append(v, e.v.(types.Address))
			}
			r.v = v
			r.same = func(g interface{}) bool {
				x := g.([]types.Address)
				ok := len(x) == len(v)
				for k := range v {
					ok = sym.And(ok, x[k] == v[k])
				}
				return ok
			}
		case "uint256[]":
			v := []*big.Int{}
			for _, e := range els {
				v = append(v, e.v.(*big.Int))
			}
			r.v = v
			r.same = func(g interface{}) bool {
				x := g.([]*big.Int)
				ok := len(x) == len(v)
				for k := range v {
					ok = sym.And(ok, els[k].same(x[k]))
				}
				return ok
			}
		case "bytes32[]":
			v := [][32]byte{}
			for _, e := range els {
				v = append(v, e.v.([32]byte))
			}
			r.v = v
			r.same = func(g interface{}) bool {
				x := g.([][32]byte)
				ok := len(x) == len(v)
				for k := range v {
					ok = sym.And(ok, x[k] == v[k])
				}
				return ok
			}
		case "tokenId[2]":
			v := [2]types.TokenTypeId{els[0].v.(types.TokenTypeId), els[1].v.(types.TokenTypeId)}
			r.v = v
			r.same = func(g interface{}) bool { return g.([2]types.TokenTypeId) == v }
		case "uint64[2]":
			v := [2]uint64{els[0].v.(uint64), els[1].v.(uint64)}
			r.v = v
			r.same = func(g interface{}) bool { return g.([2]uint64) == v }
		case "bool[1]":
			v := [1]bool{els[0].v.(bool)}
			r.v = v
			r.same = func(g interface{}) bool { return g.([1]bool) == v }
		}
		return r
	}
	r := &verifVal{}
	signed := func(v int64) []byte {
		pad := byte(0)
		if v < 0 {
			pad = 0xff
		}
		return append(verifFill(24, pad), verifBE(uint64(v), 8)...)
	}
	switch t {
	case "uint8":
		v := sym.Byte(name)
		r.v, r.head = v, verifWord(v)
	case "uint16":
		v := sym.Uint16(name)
		r.v, r.head = v, verifWord(verifBE(uint64(v), 2)...)
	case "uint32":
		v := sym.Uint32(name)
		r.v, r.head = v, verifWord(verifBE(uint64(v), 4)...)
	case "uint64":
		v := sym.Uint64(name)
		r.v, r.head = v, verifWord(verifBE(v, 8)...)
	case "int8":
		v := int8(sym.Byte(name))
		r.v, r.head = v, signed(int64(v))
	case "int16":
		v := int16(sym.Uint16(name))
		r.v, r.head = v, signed(int64(v))
	case "int32":
		v := sym.Int32(name)
		r.v, r.head = v, signed(int64(v))
	case "int64":
		v := sym.Int64(name)
		r.v, r.head = v, signed(v)
	case "uint256", "int256": // a 256-bit word: a negative number is carried as its residue
		b := sym.Bytes(name, 32)
		if k := sym.Choose(name+" small", 3); k > 0 {
			b = verifWord(b[:(k-1)*8+1]...)
		}
		v := new(big.Int).SetBytes(b)
		r.v, r.head = v, b
		r.same = func(g interface{}) bool { return sym.EqBig(g.(*big.Int), new(big.Int).SetBytes(b)) }
		return r
	case "bool":
		v := sym.Bool(name)
		w := byte(0)
		if v {
			w = 1
		}
		r.v, r.head = v, verifWord(w)
	case "address":
		v, _ := types.BytesToAddress(sym.Bytes(name, types.AddressSize))
		r.v, r.head = v, verifWord(v[:]...)
	case "gid":
		v, _ := types.BytesToGid(sym.Bytes(name, types.GidSize))
		r.v, r.head = v, verifWord(v[:]...)
	case "tokenId":
		v, _ := types.BytesToTokenTypeId(sym.Bytes(name, types.TokenTypeIdSize))
		r.v, r.head = v, verifWord(v[:]...)
	case "bytes32":
		var v [32]byte
		copy(v[:], sym.Bytes(name, 32))
		r.v, r.head = v, append([]byte{}, v[:]...)
	case "bytes5":
		var v [5]byte
		copy(v[:], sym.Bytes(name, 5))
		r.v, r.head = v, verifRight(v[:])
	case "string", "bytes":
		v := sym.Bytes(name, []int{0, 1, 31, 32, 33}[sym.Choose(name+" length", 5)])
		r.dynamic, r.tail = true, append(verifWord(byte(len(v))), verifRight(v)...)
		if t == "string" {
			r.v = string(v)
			r.same = func(g interface{}) bool { return sym.EqBytes([]byte(g.(string)), v) }
		} else {
			r.v = v
			r.same = func(g interface{}) bool { return sym.EqBytes(g.([]byte), v) }
		}
		return r
	}
	r.same = func(g interface{}) bool { return g == r.v }
	return r
}

func verifEncode(vs []*verifVal) []byte {
	n := 0
	for _, v := range vs {
		if v.dynamic {
			n += 32
		} else {
			n += len(v.head)
		}
	}
	var head, tail []byte
	for _, v := range vs {
		if v.dynamic {
			head = append(head, verifWord(verifBE(uint64(n+len(tail)), 2)...)...)
			tail = append(tail, v.tail...)
		} else {
			head = append(head, v.head...)
		}
	}
	return append(head, tail...)
}

// VerifH_RoundTrip: any argument list packs to the specified bytes and unpacks to the same values.
func VerifH_RoundTrip() {
	var ts []string
	if sym.Choose("list", 2) == 0 {
		ts = []string{verifTypes[sym.Choose("type", len(verifTypes))]}
	} else {
		ts = [][]string{
			{"string", "address", "bytes"},
			{"uint64[2]", "string", "uint8"},
			{"tokenId", "address[]", "int64", "bytes"},
			{"bool", "string", "string", "uint256", "uint8"},
			{"uint8[]", "tokenId[2]", "gid"},
		}[sym.Choose("mix", 5)]
	}
	args := verifArgs(ts...)
	var vs []*verifVal
	var in []interface{}
	for i, t := range ts {
		v := verifMake(t, t+string(rune('a'+i)))
		vs, in = append(vs, v), append(in, v.v)
	}
	data, err := args.Pack(in...)
	sym.Assert(err == nil, "packs")
	sym.Assert(sym.EqBytes(data, verifEncode(vs)), "packed-as-specified")
	got, err := args.UnpackValues(data)
	sym.Assert(err == nil && len(got) == len(vs), "unpacks")
	for i, v := range vs {
		sym.Assert(v.same(got[i]), "round-trip")
	}
	_, err = args.Pack(in[1:]...)
	sym.Assert(err != nil, "wrong-number-of-arguments")
	sym.Reach("round-trip")
}

// VerifH_Decode: any bytes of any length decode to the specified value or an error, never a panic, for types without a tail.
func VerifH_Decode() {
	t := []string{"uint8", "uint64", "int8", "int32", "uint256", "bool", "address", "gid", "tokenId", "bytes32", "bytes5", "tokenId[2]", "uint64[2]", "bool[1]"}[sym.Choose("type", 14)]
	n := []int{0, 31, 32, 33, 63, 64, 65}[sym.Choose("length", 7)]
	d := sym.Bytes("data", n)
	got, err := verifArgs(t).UnpackValues(d)
	need := 32
	if t == "tokenId[2]" || t == "uint64[2]" {
		need = 64
	}
	if n < need {
		sym.Assert(err != nil, "too-short")
		sym.Reach("short")
		return
	}
	w := d[:32]
	if t == "bool" || t == "bool[1]" {
		ok := w[31] <= 1
		for _, b := range w[:31] {
			ok = sym.And(ok, b == 0)
		}
		sym.Assert(sym.Iff(err == nil, ok), "only-clean-booleans")
		if err != nil {
			return
		}
		if t == "bool" {
			sym.Assert(sym.Iff(got[0].(bool), w[31] == 1), "decoded")
		} else {
			sym.Assert(sym.Iff(got[0].([1]bool)[0], w[31] == 1), "decoded")
		}
		sym.Reach("bool")
		return
	}
	sym.Assert(err == nil && len(got) == 1, "decodes")
	low := func(n int) uint64 {
		v := uint64(0)
		for _, b := range w[32-n:] {
			v = v<<8 | uint64(b)
		}
		return v
	}
	switch v := got[0].(type) {
	case uint8:
		sym.Assert(v == w[31], "decoded")
	case int8:
		sym.Assert(v == int8(w[31]), "decoded")
	case int32:
		sym.Assert(v == int32(low(4)), "decoded")
	case uint64:
		sym.Assert(v == low(8), "decoded")
	case *big.Int:
		sym.Assert(sym.EqBig(v, new(big.Int).SetBytes(w)), "decoded")
	case types.Address:
		sym.Assert(sym.EqBytes(v[:], w[11:]), "decoded")
	case types.Gid:
		sym.Assert(sym.EqBytes(v[:], w[22:]), "decoded")
	case types.TokenTypeId:
		sym.Assert(sym.EqBytes(v[:], w[22:]), "decoded")
	case [32]byte:
		sym.Assert(sym.EqBytes(v[:], w), "decoded")
	case [5]byte:
		sym.Assert(sym.EqBytes(v[:], w[:5]), "decoded")
	case [2]types.TokenTypeId:
		sym.Assert(sym.And(sym.EqBytes(v[0][:], w[22:]), sym.EqBytes(v[1][:], d[54:64])), "decoded")
	case [2]uint64:
		sym.Assert(v[0] == low(8), "decoded")
		w = d[32:64]
		sym.Assert(v[1] == low(8), "decoded")
	default:
		sym.Assert(false, "decoded")
	}
	sym.Reach("decoded")
}

// VerifH_DecodeDyn: the same for types with a tail: whatever offset and length the data states.
func VerifH_DecodeDyn() {
	t := []string{"string", "bytes", "uint8[]", "address[]", "uint256[]"}[sym.Choose("type", 5)]
	n := []int{32, 33, 64, 96, 100}[sym.Choose("length", sym.Param("lengths", 5))]
	d := sym.Bytes("data", n)
	// the offset is any small number or at least 2^64
	big1 := sym.Bool("huge offset")
	for i := 1; i < 31; i++ {
		sym.Assume(d[i] == 0)
	}
	sym.Assume(sym.Iff(d[0] == 0, !big1))
	got, err := verifArgs(t).UnpackValues(d)
	if big1 {
		sym.Assert(err != nil, "huge-offset")
		sym.Reach("huge-offset")
		return
	}
	off := int(d[31])
	if off+32 > n {
		sym.Assert(err != nil, "offset-beyond-the-end")
		sym.Reach("offset-beyond-the-end")
		return
	}
	lw := d[off : off+32]
	unit := 1
	if strings.HasSuffix(t, "[]") {
		unit = 32
	}
	left := (n - off - 32) / unit
	fits := int(lw[31]) <= left
	for _, b := range lw[:31] {
		fits = sym.And(fits, b == 0)
	}
	sym.Assert(sym.Iff(err == nil, fits), "accepted-exactly-when-the-tail-is-there")
	if err != nil {
		sym.Reach("tail-beyond-the-end")
		return
	}
	l := int(lw[31])
	body := d[off+32:]
	switch v := got[0].(type) {
	case string:
		sym.Assert(sym.EqBytes([]byte(v), body[:l]), "decoded")
	case []byte:
		if t == "bytes" {
			sym.Assert(sym.EqBytes(v, body[:l]), "decoded")
			break
		}
		sym.Assert(len(v) == l, "decoded")
		for i := 0; i < l; i++ {
			sym.Assert(v[i] == body[32*i+31], "decoded")
		}
	case []types.Address:
		sym.Assert(len(v) == l, "decoded")
		for i := 0; i < l; i++ {
			sym.Assert(sym.EqBytes(v[i][:], body[32*i+11:32*i+32]), "decoded")
		}
	case []*big.Int:
		sym.Assert(len(v) == l, "decoded")
		for i := 0; i < l; i++ {
			sym.Assert(sym.EqBig(v[i], new(big.Int).SetBytes(body[32*i:32*i+32])), "decoded")
		}
	default:
		sym.Assert(false, "decoded")
	}
	sym.Reach("decoded")
}

type verifStruct struct {
	C uint8
	A types.Address
	B string
	D *big.Int
}

// VerifH_Struct: unpacking into a structure puts each argument in the field of its name.
func VerifH_Struct() {
	ts := []string{"address", "string", "uint8", "uint256"}
	args := verifArgs(ts...)
	var vs []*verifVal
	var in []interface{}
	for _, t := range ts {
		v := verifMake(t, t)
		vs, in = append(vs, v), append(in, v.v)
	}
	data, err := args.Pack(in...)
	sym.Assert(err == nil, "packs")
	out := new(verifStruct)
	sym.Assert(args.Unpack(out, data) == nil, "unpacks")
	sym.Assert(sym.And(vs[0].same(out.A), vs[1].same(out.B), vs[2].same(out.C), vs[3].same(out.D)), "fields-by-name")
	for i := range ts {
		a := args[i : i+1]
		d, err := a.Pack(in[i])
		sym.Assert(err == nil, "packs")
		ok := false
		switch i {
		case 0:
			x := new(types.Address)
			err = a.Unpack(x, d)
			ok = vs[0].same(*x)
		case 1:
			x := new(string)
			err = a.Unpack(x, d)
			ok = vs[1].same(*x)
		case 2:
			x := new(uint8)
			err = a.Unpack(x, d)
			ok = vs[2].same(*x)
		case 3:
			x := new(big.Int)
			err = a.Unpack(&x, d)
			ok = vs[3].same(x)
		}
		sym.Assert(err == nil && ok, "single-value")
		if i != 0 {
			sym.Assert(a.Unpack(new(types.Address), d) != nil, "wrong-target-refused")
		}
	}
	sym.Reach("struct")
}

const verifJson = `[
 {"type":"function","name":"F","inputs":[{"name":"a","type":"address"},{"name":"b","type":"uint64"}]},
 {"type":"function","name":"G","inputs":[{"name":"a","type":"uint64"},{"name":"b","type":"address"}]},
 {"type":"callback","name":"F","inputs":[{"name":"a","type":"bytes32"}]},
 {"type":"event","name":"E","inputs":[{"name":"a","type":"address","indexed":true},{"name":"b","type":"uint256"},{"name":"c","type":"tokenId","indexed":true},{"name":"d","type":"bytes"}]},
 {"type":"event","name":"N","inputs":[{"name":"a","type":"uint8","indexed":true}]},
 {"type":"event","name":"S","inputs":[{"name":"a","type":"string","indexed":true},{"name":"b","type":"bool"}]},
 {"type":"variable","name":"V","inputs":[{"name":"a","type":"uint64"}]}
]`

type verifFG struct {
	A types.Address
	B uint64
}

// VerifH_Method: call data is recognised as exactly the method it was packed for.
func VerifH_Method() {
	c, err := JSONToABIContract(strings.NewReader(verifJson))
	sym.Assert(err == nil, "abi")
	a, _ := types.BytesToAddress(sym.Bytes("a", types.AddressSize))
	b := sym.Uint64("b")
	f, err := c.PackMethod("F", a, b)
	sym.Assert(err == nil && len(f) == 68, "packs")
	fid := types.DataHash([]byte("F(address,uint64)"))
	sym.Assert(sym.EqBytes(f[:4], fid[:4]), "method-id-is-the-signature-hash")
	out := new(verifFG)
	sym.Assert(c.UnpackMethod(out, "F", f) == nil && sym.And(out.A == a, out.B == b), "round-trip")
	sym.Assert(c.UnpackMethod(out, "G", f) != nil, "not-another-method")
	l, err := c.DirectUnpackMethodInput("F", f)
	sym.Assert(err == nil && len(l) == 2 && sym.And(l[0].(types.Address) == a, l[1].(uint64) == b), "round-trip")
	m, err := c.MethodById(f)
	sym.Assert(err == nil && m.Name == "F", "by-id")
	_, err = c.PackMethod("F", a, a)
	sym.Assert(err != nil, "wrong-types-refused")
	_, err = c.PackMethod("H", a, b)
	sym.Assert(err != nil, "unknown-method")
	// any selector
	d := sym.Bytes("call", []int{0, 3, 4, 5, 68}[sym.Choose("length", 5)])
	gid := types.DataHash([]byte("G(uint64,address)"))
	m, err = c.MethodById(d)
	isF, isG := len(d) >= 4 && sym.EqBytes(d[:4], fid[:4]), len(d) >= 4 && sym.EqBytes(d[:4], gid[:4])
	sym.Assert(sym.Iff(err == nil, sym.Or(isF, isG)), "only-known-selectors")
	if err == nil {
		sym.Assert(sym.Iff(m.Name == "F", isF), "by-id")
	}
	err = c.UnpackMethod(out, "F", d)
	sym.Assert(sym.Iff(err == nil, sym.And(isF, len(d) == 68)), "unpacks-exactly-whole-calls")
	cb, err := c.PackCallback("F", sym32("cb"))
	sym.Assert(err == nil && len(cb) == 36 && !sym.EqBytes(cb[:4], f[:4]), "callback")
	v, err := c.PackVariable("V", b)
	x := new(uint64)
	sym.Assert(err == nil && len(v) == 32 && c.UnpackVariable(x, "V", v) == nil && *x == b, "variable")
	sym.Reach("method")
}

func sym32(name string) [32]byte {
	var r [32]byte
	copy(r[:], sym.Bytes(name, 32))
	return r
}

// VerifH_Event: an event's topics and data give back its arguments.
func VerifH_Event() {
	c, err := JSONToABIContract(strings.NewReader(verifJson))
	sym.Assert(err == nil, "abi")
	k := sym.Choose("event", 3)
	verifEvent := []string{"E", "N", "S"}[k]
	switch k {
	case 0:
		ts := []string{"address", "uint256", "tokenId", "bytes"}
		var vs []*verifVal
		var in []interface{}
		for _, t := range ts {
			v := verifMake(t, t)
			vs, in = append(vs, v), append(in, v.v)
		}
		topics, data, err := c.PackEvent("E", in...)
		id := types.DataHash([]byte("E(address,uint256,tokenId,bytes)"))
		sym.Assert(err == nil && len(topics) == 3 && topics[0] == id, "event-id-is-the-signature-hash")
		sym.Assert(sym.And(sym.EqBytes(topics[1][:], vs[0].head), sym.EqBytes(topics[2][:], vs[2].head)), "indexed-arguments-are-topics")
		sym.Assert(sym.EqBytes(data, verifEncode([]*verifVal{vs[1], vs[3]})), "other-arguments-are-data")
		got, err := c.Events[verifEvent].DirectUnPack(topics, data)
		sym.Assert(err == nil && len(got) == 4, "unpacks")
		for i, v := range vs {
			sym.Assert(v.same(got[i]), "round-trip")
		}
		topics[0] = types.Hash{1}
		_, _, err = c.DirectUnpackEvent(topics, data)
		sym.Assert(err != nil, "unknown-event")
	case 1:
		b := sym.Byte("b")
		topics, data, err := c.PackEvent("N", b)
		sym.Assert(err == nil && len(topics) == 2 && len(data) == 0 && sym.EqBytes(topics[1][:], verifWord(b)), "indexed-arguments-are-topics")
		got, err := c.Events[verifEvent].DirectUnPack(topics, data)
		sym.Assert(err == nil && got[0].(uint8) == b, "round-trip")
	case 2:
		s, b := verifMake("string", "s"), verifMake("bool", "b")
		topics, data, err := c.PackEvent("S", s.v, b.v)
		sym.Assert(err == nil && len(topics) == 2 && sym.EqBytes(data, b.head), "other-arguments-are-data")
		want, _ := types.BytesToHash(s.tail[:32])
		if len(s.tail) > 32 {
			want = types.DataHash(s.tail)
		}
		sym.Assert(topics[1] == want, "long-indexed-arguments-are-hashed")
		got, err := c.Events[verifEvent].DirectUnPack(topics, data)
		sym.Assert(err == nil && got[0].(types.Hash) == topics[1] && b.same(got[1]), "round-trip")
	}
	sym.Reach("event")
}
