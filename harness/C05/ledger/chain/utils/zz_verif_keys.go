package chain_utils

import (
	"bytes"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

type verifParts struct {
	addr, addr2 types.Address
	hash        types.Hash
	tok         types.TokenTypeId
	gid         types.Gid
	height      uint64
	skey        []byte
}

func verifP(n string) *verifParts {
	p := &verifParts{}
	sym.Fill(n+".addr", p.addr[:])
	sym.Fill(n+".addr2", p.addr2[:])
	sym.Fill(n+".hash", p.hash[:])
	sym.Fill(n+".tok", p.tok[:])
	sym.Fill(n+".gid", p.gid[:])
	p.height = sym.Uint64(n + ".height")
	return p
}

const (
	fAddr = 1 << iota
	fAddr2
	fHash
	fTok
	fGid
	fHeight
	fSKey
)

func verifSame(a, b *verifParts, f int) bool {
	r := true
	if f&fAddr != 0 {
		r = sym.And(r, sym.EqBytes(a.addr[:], b.addr[:]))
	}
	if f&fAddr2 != 0 {
		r = sym.And(r, sym.EqBytes(a.addr2[:], b.addr2[:]))
	}
	if f&fHash != 0 {
		r = sym.And(r, sym.EqBytes(a.hash[:], b.hash[:]))
	}
	if f&fTok != 0 {
		r = sym.And(r, sym.EqBytes(a.tok[:], b.tok[:]))
	}
	if f&fGid != 0 {
		r = sym.And(r, sym.EqBytes(a.gid[:], b.gid[:]))
	}
	if f&fHeight != 0 {
		r = sym.And(r, a.height == b.height)
	}
	if f&fSKey != 0 {
		r = sym.And(r, sym.EqBytes(a.skey, b.skey))
	}
	return r
}

// index database kinds
func verifIndexKey(k int, p *verifParts) ([]byte, int) {
	switch k {
	case 0:
		return CreateAccountBlockHashKey(&p.hash).Bytes(), fHash
	case 1:
		return CreateAccountBlockHeightKey(&p.addr, p.height).Bytes(), fAddr | fHeight
	case 2:
		return CreateReceiveKey(&p.hash).Bytes(), fHash
	case 3:
		return CreateConfirmHeightKey(&p.addr, p.height).Bytes(), fAddr | fHeight
	case 4:
		return CreateAccountAddressKey(&p.addr).Bytes(), fAddr
	case 5:
		return CreateOnRoadKey(p.addr, p.hash).Bytes(), fAddr | fHash
	case 6:
		return CreateAccountIdKey(p.height).Bytes(), fHeight
	case 7:
		return CreateSnapshotBlockHashKey(&p.hash).Bytes(), fHash
	}
	return CreateSnapshotBlockHeightKey(p.height).Bytes(), fHeight
}

// state database kinds
func verifStateKey(k int, p *verifParts) ([]byte, int) {
	switch k {
	case 0:
		return CreateStorageValueKey(&p.addr, p.skey).Bytes(), fAddr | fSKey
	case 1:
		return CreateHistoryStorageValueKey(&p.addr, p.skey, p.height).Bytes(), fAddr | fSKey | fHeight
	case 2:
		return CreateBalanceKey(p.addr, p.tok).Bytes(), fAddr | fTok
	case 3:
		return CreateHistoryBalanceKey(p.addr, p.tok, p.height).Bytes(), fAddr | fTok | fHeight
	case 4:
		return CreateCodeKey(p.addr).Bytes(), fAddr
	case 5:
		return CreateContractMetaKey(p.addr).Bytes(), fAddr
	case 6:
		return CreateGidContractKey(p.gid, &p.addr).Bytes(), fGid | fAddr
	case 7:
		return CreateVmLogListKey(&p.hash).Bytes(), fHash
	}
	return CreateCallDepthKey(p.hash).Bytes(), fHash
}

// VerifH_KeysInjective: within one database two keys are equal exactly when they are of the same kind and name the same
// thing.
func VerifH_KeysInjective() {
	a, b := verifP("a"), verifP("b")
	db := sym.Choose("db", 2)
	ka, kb := sym.Choose("ka", 9), sym.Choose("kb", 9)
	var x, y []byte
	var f int
	if db == 0 {
		x, f = verifIndexKey(ka, a)
		y, _ = verifIndexKey(kb, b)
	} else {
		lens := []int{0, 1, 2, 31, 32}
		if ka < 2 {
			a.skey = sym.Bytes("a.skey", lens[sym.Choose("la", 5)])
		}
		if kb < 2 {
			b.skey = sym.Bytes("b.skey", lens[sym.Choose("lb", 5)])
		}
		x, f = verifStateKey(ka, a)
		y, _ = verifStateKey(kb, b)
	}
	same := sym.EqBytes(x, y)
	if ka != kb {
		sym.Assert(!same, "kinds-do-not-collide")
		sym.Reach("kinds")
		return
	}
	sym.Assert(sym.Implies(same, verifSame(a, b, f)), "key-names-one-thing")
	sym.Assert(sym.Implies(verifSame(a, b, f), same), "key-is-a-function")
	sym.Reach("same")
}

// VerifH_KeysOrdered: keys that end in a height sort by height within their prefix, so a range scan yields a contiguous
// height range.
func VerifH_KeysOrdered() {
	a := verifP("a")
	a.skey = sym.Bytes("skey", []int{0, 3, 32}[sym.Choose("l", 3)])
	b := *a
	b.height = sym.Uint64("b.height")
	var x, y []byte
	var prefix []byte
	switch sym.Choose("kind", 7) {
	case 0:
		x, _ = verifIndexKey(1, a)
		y, _ = verifIndexKey(1, &b)
	case 1:
		x, _ = verifIndexKey(3, a)
		y, _ = verifIndexKey(3, &b)
	case 2:
		x, _ = verifIndexKey(8, a)
		y, _ = verifIndexKey(8, &b)
	case 3:
		x, _ = verifStateKey(1, a)
		y, _ = verifStateKey(1, &b)
		k := StorageHistoryKey{}.Construct(x)
		sym.Assert(k != nil && k.ExtraHeight() == a.height && k.ExtraAddress() == a.addr, "history-key-parts")
		r := StorageRealKey{}.ConstructFix(k.ExtraKeyAndLen())
		sym.Assert(sym.EqBytes(r.Extra(), a.skey), "history-key-storage-key")
		prefix = CreateHistoryStorageValueKeyPrefix(&a.addr, a.skey)
		sym.Assert(bytes.HasPrefix(x, prefix), "history-prefix")
	case 4:
		x, _ = verifStateKey(3, a)
		y, _ = verifStateKey(3, &b)
		k := BalanceHistoryKey{}.Construct(x)
		sym.Assert(k != nil && k.ExtraHeight() == a.height && k.ExtraTokenId() == a.tok, "balance-history-parts")
		sym.Assert(k.EqualAddressAndTokenId(a.addr, a.tok), "balance-history-address")
	case 5:
		k1, k2 := CreateRedoSnapshot(a.height), CreateRedoSnapshot(b.height)
		x, y = k1.Bytes(), k2.Bytes()
	case 6:
		k1 := CreateOnRoadAddressHeightKey(a.addr, a.addr2, a.height, a.hash)
		k2 := CreateOnRoadAddressHeightKey(b.addr, b.addr2, b.height, b.hash)
		x, y = k1.Bytes(), k2.Bytes()
		var it OnRoadHeightKey = NewOnRoadHeightKey()
		sym.Assert(bytes.HasPrefix(x, it.IteratorPrefix(a.addr, a.addr2)), "onroad-prefix")
	}
	c := bytes.Compare(x, y)
	sym.Assert(sym.Iff(c < 0, a.height < b.height), "order-follows-height")
	sym.Assert(sym.Iff(c == 0, a.height == b.height), "order-equal")
	sym.Reach("done")
}

// VerifH_KeysPrefix: scanning a prefix of an account's storage (or balances, or a group's contracts) finds exactly the
// entries of that account with that prefix.
func VerifH_KeysPrefix() {
	a, b := verifP("a"), verifP("b")
	switch sym.Choose("kind", 4) {
	case 0:
		a.skey = sym.Bytes("skey", []int{0, 2, 5, 32}[sym.Choose("l", 4)])
		p := sym.Bytes("prefix", []int{0, 1, 2}[sym.Choose("pl", 3)])
		if len(p) > len(a.skey) {
			return
		}
		k, _ := verifStateKey(0, a)
		want := sym.And(sym.EqBytes(a.addr[:], b.addr[:]), sym.EqBytes(a.skey[:len(p)], p))
		sym.Assert(sym.Iff(bytes.HasPrefix(k, CreateStorageValueKeyPrefix(&b.addr, p)), want), "storage-prefix")
	case 1:
		k, _ := verifStateKey(2, a)
		sym.Assert(sym.Iff(bytes.HasPrefix(k, CreateBalanceKeyPrefix(b.addr)), sym.EqBytes(a.addr[:], b.addr[:])), "balance-prefix")
	case 2:
		k, _ := verifStateKey(6, a)
		sym.Assert(sym.Iff(bytes.HasPrefix(k, CreateGidContractPrefixKey(&b.gid)), sym.EqBytes(a.gid[:], b.gid[:])), "gid-prefix")
	case 3:
		k := CreateOnRoadAddressHeightKey(a.addr, a.addr2, a.height, a.hash)
		j := CreateOnRoadAddressHeightKey(b.addr, b.addr2, b.height, b.hash)
		sym.Assert(sym.Iff(sym.EqBytes(k[:], j[:]), verifSame(a, b, fAddr|fAddr2|fHeight|fHash)), "onroad-key-names-one-thing")
	}
	sym.Reach("done")
}

// VerifH_KeysRefill: a reused key buffer refilled with other parts equals a freshly built key.
func VerifH_KeysRefill() {
	a, b := verifP("a"), verifP("b")
	lens := []int{0, 1, 31, 32}
	a.skey = sym.Bytes("a.skey", lens[sym.Choose("la", 4)])
	b.skey = sym.Bytes("b.skey", lens[sym.Choose("lb", 4)])
	k := CreateStorageValueKey(&a.addr, a.skey)
	k.AddressRefill(b.addr)
	k.KeyRefill(StorageRealKey{}.Construct(b.skey))
	w := CreateStorageValueKey(&b.addr, b.skey)
	sym.Assert(k == w, "storage-refill")
	h := CreateHistoryStorageValueKey(&a.addr, a.skey, a.height)
	h.AddressRefill(b.addr)
	h.KeyRefill(StorageRealKey{}.Construct(b.skey))
	h.HeightRefill(b.height)
	hw := CreateHistoryStorageValueKey(&b.addr, b.skey, b.height)
	sym.Assert(h == hw, "history-refill")
	bk := CreateHistoryBalanceKey(a.addr, a.tok, a.height)
	bk.AddressRefill(b.addr)
	bk.TokenIdRefill(b.tok)
	bk.HeightRefill(b.height)
	bw := CreateHistoryBalanceKey(b.addr, b.tok, b.height)
	sym.Assert(bk == bw, "balance-refill")
	ak := CreateAccountBlockHeightKey(&a.addr, a.height)
	ak.AddressRefill(b.addr)
	ak.HeightRefill(b.height)
	aw := CreateAccountBlockHeightKey(&b.addr, b.height)
	sym.Assert(ak == aw, "height-refill")
	sym.Reach("done")
}

// VerifH_Location: block locations survive storage and compare in file order.
func VerifH_Location() {
	l := chain_file_manager.NewLocation(sym.Uint64("f"), int64(sym.Uint32("o")))
	m := chain_file_manager.NewLocation(sym.Uint64("g"), int64(sym.Uint32("p")))
	r := DeserializeLocation(SerializeLocation(l))
	sym.Assert(r.FileId == l.FileId && r.Offset == l.Offset, "location-roundtrip")
	c := l.Compare(m)
	sym.Assert(sym.Iff(c < 0, sym.Or(l.FileId < m.FileId, sym.And(l.FileId == m.FileId, l.Offset < m.Offset))), "location-less")
	sym.Assert(sym.Iff(c == 0, sym.And(l.FileId == m.FileId, l.Offset == m.Offset)), "location-equal")
	sym.Assert(m.Compare(l) == -c, "location-antisymmetric")
	h := sym.Uint64("h")
	sym.Assert(BytesToUint64(Uint64ToBytes(h)) == h, "height-roundtrip")
	sym.Reach("done")
}
