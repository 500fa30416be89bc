package vm_db

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

type verifPair struct{ k, v []byte }

type verifIter struct {
	p []verifPair
	i int
}

func (it *verifIter) Last() bool { it.i = len(it.p) - 1; return it.i >= 0 }
func (it *verifIter) Prev() bool {
	if it.i >= 0 {
		it.i--
	}
	return it.i >= 0
}
func (it *verifIter) Next() bool {
	if it.i < len(it.p) {
		it.i++
	}
	return it.i < len(it.p)
}
func (it *verifIter) Seek(key []byte) bool {
	for it.i = 0; it.i < len(it.p) && bytes.Compare(it.p[it.i].k, key) < 0; it.i++ {
	}
	return it.i < len(it.p)
}
func (it *verifIter) Key() []byte   { return it.p[it.i].k }
func (it *verifIter) Value() []byte { return it.p[it.i].v }
func (it *verifIter) Error() error  { return nil }
func (it *verifIter) Release()      {}

// verifChain is what was committed before the block.
type verifChain struct {
	Chain
	addr     types.Address
	storage  []verifPair
	balances map[types.TokenTypeId]*big.Int
	code     []byte
	meta     *ledger.ContractMeta
}

func (c *verifChain) GetValue(addr types.Address, key []byte) ([]byte, error) {
	sym.Assert(addr == c.addr, "reads-its-own-account")
	return verifGet(c.storage, key), nil
}
func (c *verifChain) GetStorageIterator(addr types.Address, prefix []byte) (interfaces.StorageIterator, error) {
	sym.Assert(addr == c.addr, "reads-its-own-account")
	it := &verifIter{i: -1}
	for _, p := range c.storage {
		if bytes.HasPrefix(p.k, prefix) {
			it.p = append(it.p, p)
		}
	}
	return it, nil
}
func (c *verifChain) GetBalance(addr types.Address, t types.TokenTypeId) (*big.Int, error) {
	sym.Assert(addr == c.addr, "reads-its-own-account")
	if b, ok := c.balances[t]; ok {
		return new(big.Int).Set(b), nil
	}
	return new(big.Int), nil
}
func (c *verifChain) GetContractCode(addr types.Address) ([]byte, error) {
	sym.Assert(addr == c.addr, "reads-its-own-account")
	return c.code, nil
}
func (c *verifChain) GetContractMeta(addr types.Address) (*ledger.ContractMeta, error) {
	sym.Assert(addr == c.addr, "reads-its-own-account")
	return c.meta, nil
}
func (c *verifChain) GetSnapshotHeaderByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	return &ledger.SnapshotBlock{Height: 100000000, Hash: h}, nil
}

func verifGet(m []verifPair, key []byte) []byte {
	for _, p := range m {
		if bytes.Equal(p.k, key) {
			return p.v
		}
	}
	return nil
}

// verifPut keeps the pairs sorted; it never deletes.
func verifPut(m []verifPair, key, value []byte) []verifPair {
	var r []verifPair
	done := false
	for _, p := range m {
		c := bytes.Compare(p.k, key)
		if c == 0 {
			p.v, done = value, true
		}
		if c > 0 && !done {
			r, done = append(r, verifPair{key, value}), true
		}
		r = append(r, p)
	}
	if !done {
		r = append(r, verifPair{key, value})
	}
	return r
}

var verifKeys = [][]byte{{1, 9}, {1}, {1, 9, 0}, {2, 9}}

func verifNew(c *verifChain) *vmDb {
	sb, prev := types.Hash{7}, types.Hash{}
	db, err := NewVmDb(c, &c.addr, &sb, &prev)
	if err != nil {
		panic(err)
	}
	return db
}

// verifValue is nil, empty, or one or two arbitrary bytes.
func verifValue(name string) []byte {
	switch sym.Choose(name, 3) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return sym.Bytes(name, 1)
}

// verifMerged is the state after the block: committed entries overlaid by the written ones, without deleted ones.
func verifMerged(committed, written []verifPair) []verifPair {
	all := committed
	for _, p := range written {
		all = verifPut(all, p.k, p.v)
	}
	var r []verifPair
	for _, p := range all {
		if len(p.v) > 0 {
			r = append(r, p)
		}
	}
	return r
}

func verifCheck(db *vmDb, committed, written []verifPair) {
	want := verifMerged(committed, written)
	for _, k := range verifKeys {
		v, err := db.GetValue(k)
		sym.Assert(err == nil && sym.EqBytes(v, verifGet(want, k)), "reads-see-the-latest-write")
		o, err := db.GetOriginalValue(k)
		sym.Assert(err == nil && sym.EqBytes(o, verifGet(committed, k)), "the-committed-value-stays-readable")
	}
	if db.uns == nil || db.uns.storage == nil {
		return
	}
	for _, prefix := range [][]byte{nil, {1, 9}} {
		it, err := db.NewStorageIterator(prefix)
		sym.Assert(err == nil, "iterator")
		for _, p := range want {
			if !bytes.HasPrefix(p.k, prefix) {
				continue
			}
			sym.Assert(it.Next(), "iteration-misses-nothing")
			sym.Assert(sym.And(bytes.Equal(it.Key(), p.k), sym.EqBytes(it.Value(), p.v)), "iteration-in-key-order-with-latest-values")
		}
		sym.Assert(!it.Next() && it.Error() == nil, "iteration-ends")
		it.Release()
	}
}

// VerifH_Storage runs any short sequence of writes, deletions and resets over any committed storage.
func VerifH_Storage() {
	c := &verifChain{addr: types.Address{5, 20: 1}}
	for i := range verifKeys {
		if sym.Choose("committed", 2) == 1 {
			c.storage = verifPut(c.storage, verifKeys[i], sym.Bytes("committed", 1))
		}
	}
	db := verifNew(c)
	var written []verifPair
	verifCheck(db, c.storage, written)
	n := sym.Param("ops", 2)
	for i := 0; i < n; i++ {
		op := sym.Choose("operation", len(verifKeys)+1)
		if op == len(verifKeys) {
			db.Reset()
			written = nil
		} else {
			v := verifValue("value")
			sym.Assert(db.SetValue(append([]byte{}, verifKeys[op]...), v) == nil, "write-accepted")
			written = verifPut(written, verifKeys[op], v)
		}
		verifCheck(db, c.storage, written)
	}
	if sym.Choose("finish", 2) == 1 {
		db.Finish()
	}
	out := db.GetUnsavedStorage()
	sym.Assert(len(out) == len(written), "every-written-key-is-committed-once")
	for i, p := range written {
		sym.Assert(sym.And(bytes.Equal(out[i][0], p.k), sym.EqBytes(out[i][1], p.v)), "the-last-write-of-each-key-is-committed")
	}
	sym.Reach("storage")
}

// VerifH_LongKey: keys of more than 32 bytes are refused and leave nothing behind.
func VerifH_LongKey() {
	c := &verifChain{addr: types.Address{5, 20: 1}}
	db := verifNew(c)
	n := 31 + sym.Choose("length", 4)
	err := db.SetValue(sym.Bytes("key", n), []byte{1})
	sym.Assert((err == nil) == (n <= 32), "keys-of-up-to-32-bytes")
	l := 0
	if n <= 32 {
		l = 1
	}
	sym.Assert(len(db.GetUnsavedStorage()) == l, "refused-writes-leave-nothing")
	sym.Reach("long")
}

// VerifH_Receipt: the state hash depends on what was written, not on the order, and on every byte of it.
func VerifH_Receipt() {
	c := &verifChain{addr: types.Address{5, 20: 1}}
	k := [][]byte{{1, 9}, {2, 9}}
	v, w := [][]byte{sym.Bytes("v0", 2), sym.Bytes("v1", 2)}, [][]byte{sym.Bytes("w0", 2), sym.Bytes("w1", 2)}
	a, b := verifNew(c), verifNew(c)
	for i := range k {
		a.SetValue(k[i], v[i])
		b.SetValue(k[1-i], w[1-i])
	}
	n := 2
	if sym.Choose("only one", 2) == 1 {
		a, b = verifNew(c), verifNew(c)
		a.SetValue(k[0], v[0])
		b.SetValue(k[0], w[0])
		n = 1
	}
	same := true
	for i := 0; i < n; i++ {
		same = sym.And(same, sym.EqBytes(v[i], w[i]))
	}
	ha, hb := a.GetReceiptHash(), b.GetReceiptHash()
	sym.Assert(sym.Iff(*ha == *hb, same), "state-hash-binds-the-writes")
	a.Reset()
	sym.Assert(a.GetReceiptHash().IsZero(), "nothing-written-has-the-zero-hash")
	sym.Reach("receipt")
}

// VerifH_Rest: balances, code, contract records and logs are overlaid and reset too.
func VerifH_Rest() {
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	t := []types.TokenTypeId{{1}, {2}}
	c := &verifChain{addr: types.Address{5, 20: 1}, balances: map[types.TokenTypeId]*big.Int{t[0]: sym.BigInt("committed", 64)}, code: []byte{1, 2}, meta: &ledger.ContractMeta{QuotaRatio: 10}}
	db := verifNew(c)
	want := []*big.Int{c.balances[t[0]], new(big.Int)}
	logs := 0
	code, meta := []byte{1, 2}, byte(10)
	metas := 0
	var set []*big.Int = []*big.Int{nil, nil}
	for i := 0; i < sym.Param("ops", 3); i++ {
		switch sym.Choose("operation", 7) {
		case 0, 1:
			j := sym.Choose("token", 2)
			v := sym.BigInt("balance", 64)
			db.SetBalance(&t[j], new(big.Int).Set(v))
			want[j], set[j] = v, v
		case 2:
			b, _ := db.GetBalance(&t[0])
			b.Add(b, big.NewInt(1)) // a caller computing with what it was given changes nothing
		case 3:
			db.AddLog(&ledger.VmLog{Data: []byte{byte(logs)}})
			logs++
		case 4:
			db.SetContractCode([]byte{9})
			code = []byte{9}
		case 5:
			db.SetContractMeta(c.addr, &ledger.ContractMeta{QuotaRatio: 30})
			db.SetContractMeta(types.Address{6}, &ledger.ContractMeta{QuotaRatio: 40})
			meta, metas = 30, 2
		case 6:
			db.Reset()
			want, logs, code, meta, metas = []*big.Int{c.balances[t[0]], new(big.Int)}, 0, []byte{1, 2}, 10, 0
			set = []*big.Int{nil, nil}
		}
	}
	for j := range t {
		b, err := db.GetBalance(&t[j])
		sym.Assert(err == nil && b.Cmp(want[j]) == 0, "balance-is-the-latest-one")
		u, ok := db.GetUnsavedBalanceMap()[t[j]]
		sym.Assert(ok == (set[j] != nil), "only-changed-balances-are-committed")
		if ok {
			sym.Assert(u.Cmp(set[j]) == 0, "the-latest-balance-is-committed")
		}
	}
	sym.Assert(len(db.GetLogList()) == logs && (logs > 0) == (db.GetLogListHash() != nil), "logs-of-this-execution-only")
	for i, l := range db.GetLogList() {
		sym.Assert(l.Data[0] == byte(i), "logs-in-order")
	}
	got, _ := db.GetContractCode()
	m, _ := db.GetContractMeta()
	sym.Assert(bytes.Equal(got, code) && m.QuotaRatio == meta && len(db.GetUnsavedContractMeta()) == metas, "code-and-contract-record")
	sym.Reach("rest")
}
