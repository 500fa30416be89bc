package types

import (
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func verifLower(s string) []byte {
	b := []byte(s)
	for i := range b {
		c := b[i]
		up := sym.And(c >= 'A', c <= 'Z')
		if up {
			c += 32
		}
		b[i] = c
	}
	return b
}

// VerifH_AddressRoundTrip: every address of a known kind survives text and JSON encoding.
func VerifH_AddressRoundTrip() {
	var a Address
	sym.Fill("a", a[:AddressCoreSize])
	a[AddressCoreSize] = byte(sym.Choose("kind", 2))
	s := a.Hex()
	sym.Assert(s == a.String(), "address-string-is-hex")
	b, err := HexToAddress(s)
	sym.Assert(err == nil, "address-hex-accepted")
	sym.Assert(a == b, "address-hex-roundtrip")
	sym.Assert(IsValidHexAddress(s), "address-hex-valid")
	switch sym.Choose("form", 3) {
	case 0:
		txt, err := a.MarshalText()
		sym.Assert(err == nil && string(txt) == s, "address-text-form")
		var c Address
		err = c.UnmarshalText(txt)
		sym.Assert(err == nil, "address-text-accepted")
		sym.Assert(a == c, "address-text-roundtrip")
	case 1:
		var c Address
		err = c.UnmarshalJSON([]byte("\"" + s + "\""))
		sym.Assert(err == nil, "address-json-accepted")
		sym.Assert(a == c, "address-json-roundtrip")
	case 2:
		var c Address
		err = c.UnmarshalText([]byte("\"" + s + "\""))
		sym.Assert(err == nil, "address-untext-accepted")
		sym.Assert(a == c, "address-untext-roundtrip")
	}
	sym.Reach("done")
}

// VerifH_AddressAccept: a text accepted as an address is that address's own text (letter case of hex aside).
func VerifH_AddressAccept() {
	pre := "vite_"
	if sym.Choose("badprefix", 2) == 1 {
		pre = string(sym.Bytes("prefix", 5))
		sym.Assume(pre != "vite_")
	}
	s := pre + string(sym.Bytes("s", 50))
	a, err := HexToAddress(s)
	if err != nil {
		sym.Assert(!IsValidHexAddress(s), "address-validity-agrees")
		sym.Reach("rejected")
		return
	}
	sym.Assert(IsValidHexAddress(s), "address-validity-agrees")
	sym.Assert(pre == "vite_", "address-prefix-checked")
	h := a.Hex()
	sym.Assert(string(verifLower(s)) == h, "address-accepted-is-canonical")
	sym.Reach("accepted")
}

// VerifH_CodecLengths: texts of any other length are rejected by all parsers.
func VerifH_CodecLengths() {
	n := sym.Choose("n", sym.Param("maxlen", 70))
	b := sym.Bytes("s", n)
	pres := []string{"", "vite_", "tti_"}
	p := pres[sym.Choose("pre", 3)]
	s := p + string(b)
	if len(s) != 55 {
		_, err := HexToAddress(s)
		sym.Assert(err != nil, "address-length")
	}
	if len(s) != 28 {
		_, err := HexToTokenTypeId(s)
		sym.Assert(err != nil, "token-length")
	}
	if len(s) != 20 {
		_, err := HexToGid(s)
		sym.Assert(err != nil, "gid-length")
	}
	if len(s) != 64 {
		_, err := HexToHash(s)
		sym.Assert(err != nil, "hash-length")
	}
	if n != 21 {
		_, err := BytesToAddress(b)
		sym.Assert(err != nil, "address-bytes-length")
	} else {
		a, err := BytesToAddress(b)
		sym.Assert(err == nil && sym.EqBytes(a.Bytes(), b), "address-bytes")
	}
	if n != 10 {
		_, err := BytesToTokenTypeId(b)
		sym.Assert(err != nil, "token-bytes-length")
		_, err = BytesToGid(b)
		sym.Assert(err != nil, "gid-bytes-length")
	} else {
		t, err := BytesToTokenTypeId(b)
		sym.Assert(err == nil && sym.EqBytes(t.Bytes(), b), "token-bytes")
		g, err := BytesToGid(b)
		sym.Assert(err == nil && sym.EqBytes(g.Bytes(), b), "gid-bytes")
	}
	if n != 32 {
		_, err := BytesToHash(b)
		sym.Assert(err != nil, "hash-bytes-length")
	} else {
		h, err := BytesToHash(b)
		sym.Assert(err == nil && sym.EqBytes(h.Bytes(), b), "hash-bytes")
	}
	sym.Reach("done")
}

// VerifH_TokenRoundTrip: token ids.
func VerifH_TokenRoundTrip() {
	var a TokenTypeId
	sym.Fill("t", a[:])
	s := a.Hex()
	b, err := HexToTokenTypeId(s)
	sym.Assert(err == nil, "token-hex-accepted")
	sym.Assert(a == b, "token-hex-roundtrip")
	sym.Assert(IsValidHexTokenTypeId(s), "token-hex-valid")
	switch sym.Choose("form", 3) {
	case 0:
		txt, err := a.MarshalText()
		sym.Assert(err == nil && string(txt) == s, "token-text-form")
		var c TokenTypeId
		err = c.UnmarshalText(txt)
		sym.Assert(err == nil, "token-text-accepted")
		sym.Assert(a == c, "token-text-roundtrip")
	case 1:
		var c TokenTypeId
		err = c.UnmarshalJSON([]byte("\"" + s + "\""))
		sym.Assert(err == nil, "token-json-accepted")
		sym.Assert(a == c, "token-json-roundtrip")
	case 2:
		var c TokenTypeId
		err = c.UnmarshalText([]byte("\"" + s + "\""))
		sym.Assert(err == nil, "token-untext-accepted")
		sym.Assert(a == c, "token-untext-roundtrip")
	}
	sym.Reach("done")
}

// VerifH_TokenAccept: accepted token texts are canonical.
func VerifH_TokenAccept() {
	pre := "tti_"
	if sym.Choose("badprefix", 2) == 1 {
		pre = string(sym.Bytes("prefix", 4))
		sym.Assume(pre != "tti_")
	}
	s := pre + string(sym.Bytes("s", 24))
	a, err := HexToTokenTypeId(s)
	sym.Assert((err == nil) == IsValidHexTokenTypeId(s), "token-validity-agrees")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(pre == "tti_", "token-prefix-checked")
	sym.Assert(string(verifLower(s)) == a.Hex(), "token-accepted-is-canonical")
	sym.Reach("accepted")
}

// VerifH_HashGid: hashes and consensus group ids.
func VerifH_HashGid() {
	if sym.Choose("dir", 2) == 0 {
		var h Hash
		sym.Fill("h", h[:])
		s := h.Hex()
		g, err := HexToHash(s)
		sym.Assert(err == nil && g == h, "hash-hex-roundtrip")
		var j Hash
		err = j.UnmarshalJSON([]byte("\"" + s + "\""))
		sym.Assert(err == nil && j == h, "hash-json-roundtrip")
		txt, err := h.MarshalText()
		sym.Assert(err == nil && string(txt) == s, "hash-text")
		big, err := BigToHash(h.Big())
		sym.Assert(err == nil && big == h, "hash-big-roundtrip")
		var o Hash
		sym.Fill("o", o[:])
		c := h.Cmp(o)
		sym.Assert((c == 0) == (h == o), "hash-cmp-eq")
		sym.Assert(o.Cmp(h) == -c, "hash-cmp-antisym")
		sym.Assert(h.IsZero() == (h == Hash{}), "hash-zero")

		var gid Gid
		sym.Fill("g", gid[:])
		gs := gid.Hex()
		gg, err := HexToGid(gs)
		sym.Assert(err == nil && gg == gid, "gid-hex-roundtrip")
		var gj Gid
		err = gj.UnmarshalJSON([]byte("\"" + gs + "\""))
		sym.Assert(err == nil && gj == gid, "gid-json-roundtrip")
		sym.Reach("encode")
		return
	}
	s := string(sym.Bytes("s", 64))
	h, err := HexToHash(s)
	if err == nil {
		sym.Assert(string(verifLower(s)) == h.Hex(), "hash-accepted-is-canonical")
		sym.Reach("hash-accepted")
	}
}

// VerifH_GidAccept: accepted group id texts are canonical.
func VerifH_GidAccept() {
	s2 := string(sym.Bytes("s2", 20))
	g, err := HexToGid(s2)
	if err == nil {
		sym.Assert(string(verifLower(s2)) == g.Hex(), "gid-accepted-is-canonical")
		sym.Reach("gid-accepted")
	}
}
