package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
)

// Terms that depend on a single byte of a single variable are canonicalised by their truth table.

type supInfo struct {
	v    *Term
	byt  int32
	kind int8 // 0 none, 1 single byte, 2 many
}

func (tb *TB) support(t *Term) supInfo {
	if t.op == OpConst {
		return supInfo{}
	}
	if s, ok := tb.sup[t]; ok {
		return s
	}
	var s supInfo
	switch {
	case t.op == OpVar:
		if t.w >= 0 && t.w <= 8 {
			s = supInfo{t, 0, 1}
		} else {
			s = supInfo{kind: 2}
		}
	case t.op == OpExtract && t.a[0].op == OpVar && t.a[0].w > 8 && int32(t.u)/8 == (int32(t.u)+t.w-1)/8:
		s = supInfo{t.a[0], int32(t.u) / 8, 1}
	default:
		for i := 0; i < int(t.na); i++ {
			x := tb.support(t.a[i])
			if x.kind == 0 {
				continue
			}
			if x.kind == 2 {
				s = x
				break
			}
			if s.kind == 0 {
				s = x
			} else if s.v != x.v || s.byt != x.byt {
				s = supInfo{kind: 2}
				break
			}
		}
	}
	tb.sup[t] = s
	return s
}

func (tb *TB) table(t *Term, s supInfo) string {
	n := 256
	if s.v.w < 8 {
		n = 1 << uint(s.v.w)
		if s.v.w == 0 {
			n = 2
		}
	}
	buf := make([]byte, 0, n*8)
	for i := 0; i < n; i++ {
		md := NewModel()
		if s.v.w <= 64 {
			md.v[s.v] = tb.C(uint64(i)<<uint(8*s.byt)&tableMask(s.v.w), s.v.w)
		} else {
			md.v[s.v] = tb.CB(new(big.Int).And(new(big.Int).Lsh(big.NewInt(int64(i)), uint(8*s.byt)), bigMask(s.v.w)), s.v.w)
		}
		buf = binary.LittleEndian.AppendUint64(buf, tb.Eval(t, md).u)
	}
	return string(buf)
}

func tableMask(w int32) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (tb *TB) canon(t *Term) *Term {
	if t.op == OpConst || t.w < 0 || t.w > 64 || t.op == OpVar {
		return t
	}
	if c, ok := tb.canonM[t]; ok {
		return c
	}
	r := t
	s := tb.support(t)
	if s.kind == 1 {
		pre := fmt.Sprintf("%d/%d/%d/", s.v.id, s.byt, t.w)
		if !tb.canonPre[pre] {
			tb.canonPre[pre] = true
			reg := func(x *Term) {
				if x.w > t.w {
					return
				}
				if t.w == 0 {
					return
				}
				y := tb.ZExt(x, t.w)
				k := pre + tb.table(y, s)
				if _, ok := tb.tables[k]; !ok {
					tb.tables[k] = y
				}
			}
			if t.w > 0 && s.v.w > 0 {
				lo := s.byt * 8
				hi := lo + 7
				if hi >= s.v.w {
					hi = s.v.w - 1
				}
				reg(tb.Extract(s.v, hi, lo))
				if hi-lo == 7 {
					reg(tb.Extract(s.v, hi, lo+4))
					reg(tb.Extract(s.v, lo+3, lo))
				}
			}
		}
		tab := tb.table(t, s)
		con := true
		for i := 8; i < len(tab); i += 8 {
			if tab[i:i+8] != tab[:8] {
				con = false
				break
			}
		}
		if con {
			r = tb.C(binary.LittleEndian.Uint64([]byte(tab[:8])), t.w)
			if t.w == 0 {
				r = tb.Bool(r.u != 0)
			}
		} else {
			if x, ok := tb.tables[pre+tab]; ok {
				r = x
			} else if t.w == 0 {
				if x := tb.ranges(tab, s); x != nil {
					r = x
					tb.canonM[x] = x
				}
			}
		}
	}
	tb.canonM[t] = r
	return r
}

// ranges is the truth table as a few intervals of the byte, or nil. It depends on the table alone.
func (tb *TB) ranges(tab string, s supInfo) *Term {
	if s.v.w == 0 {
		return nil
	}
	n := len(tab) / 8
	at := func(i int) bool { return tab[i*8] != 0 }
	cnt := func(v bool) int {
		c := 0
		for i := 0; i < n; i++ {
			if at(i) == v && (i == 0 || at(i-1) != v) {
				c++
			}
		}
		return c
	}
	v := true
	if cnt(false) < cnt(true) {
		v = false
	}
	if cnt(v) > 3 {
		return nil
	}
	x := s.v
	if s.v.w > 8 {
		hi := s.byt*8 + 7
		if hi >= s.v.w {
			hi = s.v.w - 1
		}
		x = tb.Extract(s.v, hi, s.byt*8)
	}
	max := int(mask(x.w))
	r := tb.False
	for i := 0; i < n && i <= max; i++ {
		if at(i) != v || (i > 0 && at(i-1) == v) {
			continue
		}
		j := i
		for j+1 < n && j+1 <= max && at(j+1) == v {
			j++
		}
		var p *Term
		switch {
		case i == j:
			p = tb.Eq(x, tb.C(uint64(i), x.w))
		default:
			p = tb.True
			if i > 0 {
				p = tb.And(p, tb.Not(tb.ULt(x, tb.C(uint64(i), x.w))))
			}
			if j < max {
				p = tb.And(p, tb.Not(tb.ULt(tb.C(uint64(j), x.w), x)))
			}
		}
		r = tb.Or(r, p)
	}
	if !v {
		r = tb.Not(r)
	}
	return r
}
