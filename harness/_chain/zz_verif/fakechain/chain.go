// Package fakechain is a ledger kept in plain slices. It stands for the node's chain below vm_db: what was
// committed is what is read.
package fakechain

import (
	"bytes"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm_db"
)

type Balance struct {
	Token  types.TokenTypeId
	Amount *big.Int
}

type Pair struct{ Key, Value []byte }

type Account struct {
	Addr     types.Address
	Balances []Balance
	Storage  []Pair // sorted by key
	Code     []byte
	Meta     *core.ContractMeta
	Stake    *big.Int
	Blocks   []*core.AccountBlock
	Unconf   []*core.AccountBlock
	Quota    []types.QuotaInfo
}

type Chain struct {
	vm_db.Chain
	Accounts  []*Account
	Snapshots []*core.SnapshotBlock // heights 1, 2, ...; the last one is the latest
	Global    types.QuotaInfo
	Depth     uint16
	Confirmed uint64 // confirmed times of every block
	ConfirmSb *core.SnapshotBlock
	SeedValue uint64
}

// Snapshot makes a snapshot block of the given height and time.
func Snapshot(height uint64, unix int64) *core.SnapshotBlock {
	t := time.Unix(unix, 0)
	return &core.SnapshotBlock{Hash: types.Hash{0xbb, byte(height), byte(height >> 8), byte(height >> 16), byte(height >> 24)}, Height: height, Timestamp: &t}
}

func New(height uint64, unix int64) *Chain {
	return &Chain{Snapshots: []*core.SnapshotBlock{Snapshot(height, unix)}}
}

func (c *Chain) Latest() *core.SnapshotBlock { return c.Snapshots[len(c.Snapshots)-1] }

// Advance adds a snapshot block.
func (c *Chain) Advance(height uint64, unix int64) {
	c.Snapshots = append(c.Snapshots, Snapshot(height, unix))
}

// Account finds or makes an account.
func (c *Chain) Account(addr types.Address) *Account {
	for _, a := range c.Accounts {
		if a.Addr == addr {
			return a
		}
	}
	a := &Account{Addr: addr}
	c.Accounts = append(c.Accounts, a)
	return a
}

func (a *Account) Balance(t types.TokenTypeId) *big.Int {
	for _, b := range a.Balances {
		if b.Token == t {
			return b.Amount
		}
	}
	return new(big.Int)
}

func (a *Account) SetBalance(t types.TokenTypeId, v *big.Int) {
	for i := range a.Balances {
		if a.Balances[i].Token == t {
			a.Balances[i].Amount = v
			return
		}
	}
	a.Balances = append(a.Balances, Balance{t, v})
}

func (a *Account) Value(key []byte) []byte {
	for _, p := range a.Storage {
		if bytes.Equal(p.Key, key) {
			return append([]byte{}, p.Value...)
		}
	}
	return nil
}

// SetValue writes one storage entry; an empty value deletes it.
func (a *Account) SetValue(key, value []byte) {
	key, value = append([]byte{}, key...), append([]byte{}, value...)
	for i, p := range a.Storage {
		if bytes.Equal(p.Key, key) {
			if len(value) == 0 {
				a.Storage = append(append([]Pair{}, a.Storage[:i]...), a.Storage[i+1:]...)
			} else {
				a.Storage[i].Value = value
			}
			return
		}
	}
	if len(value) == 0 {
		return
	}
	i := 0
	for i < len(a.Storage) && bytes.Compare(a.Storage[i].Key, key) < 0 {
		i++
	}
	s := append([]Pair{}, a.Storage[:i]...)
	s = append(s, Pair{key, value})
	a.Storage = append(s, a.Storage[i:]...)
}

// DB is a database for executing the next block of an account.
func (c *Chain) DB(addr types.Address) interfaces.VmDb {
	prev := types.Hash{}
	if a := c.Account(addr); len(a.Blocks) > 0 {
		prev = a.Blocks[len(a.Blocks)-1].Hash
	}
	sb := c.Latest().Hash
	db, err := vm_db.NewVmDb(c, &addr, &sb, &prev)
	if err != nil {
		panic(err)
	}
	return db
}

// Commit applies what the execution of a block left in the database.
func (c *Chain) Commit(db interfaces.VmDb, block *core.AccountBlock) {
	a := c.Account(*db.Address())
	for _, kv := range db.GetUnsavedStorage() {
		a.SetValue(kv[0], kv[1])
	}
	for t, v := range db.GetUnsavedBalanceMap() {
		a.SetBalance(t, new(big.Int).Set(v))
	}
	for addr, m := range db.GetUnsavedContractMeta() {
		c.Account(addr).Meta = m
	}
	if code := db.GetUnsavedContractCode(); len(code) > 0 {
		a.Code = code
	}
	if block != nil {
		a.Blocks = append(a.Blocks, block)
	}
}

func (c *Chain) GetQuotaUsedList(addr types.Address) []types.QuotaInfo { return c.Account(addr).Quota }
func (c *Chain) GetGlobalQuota() types.QuotaInfo                       { return c.Global }
func (c *Chain) GetBalance(addr types.Address, t types.TokenTypeId) (*big.Int, error) {
	return new(big.Int).Set(c.Account(addr).Balance(t)), nil
}
func (c *Chain) GetContractCode(addr types.Address) ([]byte, error) { return c.Account(addr).Code, nil }
func (c *Chain) GetContractMeta(addr types.Address) (*core.ContractMeta, error) {
	return c.Account(addr).Meta, nil
}
func (c *Chain) GetConfirmSnapshotHeaderByAbHash(types.Hash) (*core.SnapshotBlock, error) {
	return c.ConfirmSb, nil
}
func (c *Chain) GetConfirmedTimes(types.Hash) (uint64, error) { return c.Confirmed, nil }
func (c *Chain) GetContractMetaInSnapshot(addr types.Address, h uint64) (*core.ContractMeta, error) {
	return c.Account(addr).Meta, nil
}
func (c *Chain) GetSnapshotHeaderByHash(hash types.Hash) (*core.SnapshotBlock, error) {
	for _, s := range c.Snapshots {
		if s.Hash == hash {
			return s, nil
		}
	}
	return nil, nil
}
func (c *Chain) GetSnapshotBlockByHeight(h uint64) (*core.SnapshotBlock, error) {
	for _, s := range c.Snapshots {
		if s.Height == h {
			return s, nil
		}
	}
	return nil, nil
}
func (c *Chain) GetAccountBlockByHash(hash types.Hash) (*core.AccountBlock, error) {
	for _, a := range c.Accounts {
		for _, b := range a.Blocks {
			if b.Hash == hash {
				return b, nil
			}
		}
	}
	return nil, nil
}
func (c *Chain) GetLatestAccountBlock(addr types.Address) (*core.AccountBlock, error) {
	if a := c.Account(addr); len(a.Blocks) > 0 {
		return a.Blocks[len(a.Blocks)-1], nil
	}
	return nil, nil
}
func (c *Chain) GetVmLogList(*types.Hash) (core.VmLogList, error) { return nil, nil }
func (c *Chain) GetUnconfirmedBlocks(addr types.Address) []*core.AccountBlock {
	return c.Account(addr).Unconf
}
func (c *Chain) GetGenesisSnapshotBlock() *core.SnapshotBlock { return c.Snapshots[0] }
func (c *Chain) GetStakeBeneficialAmount(addr types.Address) (*big.Int, error) {
	if s := c.Account(addr).Stake; s != nil {
		return new(big.Int).Set(s), nil
	}
	return new(big.Int), nil
}
func (c *Chain) GetValue(addr types.Address, key []byte) ([]byte, error) {
	return c.Account(addr).Value(key), nil
}
func (c *Chain) GetCallDepth(types.Hash) (uint16, error) { return c.Depth, nil }
func (c *Chain) GetSnapshotBlockByContractMeta(types.Address, types.Hash) (*core.SnapshotBlock, error) {
	return c.ConfirmSb, nil
}
func (c *Chain) GetSeedConfirmedSnapshotBlock(types.Address, types.Hash) (*core.SnapshotBlock, error) {
	return c.ConfirmSb, nil
}
func (c *Chain) GetSeed(*core.SnapshotBlock, types.Hash) (uint64, error) { return c.SeedValue, nil }
func (c *Chain) GetStorageIterator(addr types.Address, prefix []byte) (interfaces.StorageIterator, error) {
	it := &Iterator{i: -1}
	for _, p := range c.Account(addr).Storage {
		if bytes.HasPrefix(p.Key, prefix) {
			it.Pairs = append(it.Pairs, p)
		}
	}
	return it, nil
}

// Iterator walks over sorted pairs the way a leveldb iterator does.
type Iterator struct {
	Pairs []Pair
	i     int
}

func NewIterator(p []Pair) *Iterator { return &Iterator{p, -1} }

func (it *Iterator) Last() bool {
	it.i = len(it.Pairs) - 1
	return it.i >= 0
}
func (it *Iterator) Prev() bool {
	if it.i < 0 {
		return false
	}
	it.i--
	return it.i >= 0
}
func (it *Iterator) Next() bool {
	if it.i >= len(it.Pairs) {
		return false
	}
	it.i++
	return it.i < len(it.Pairs)
}
func (it *Iterator) Seek(key []byte) bool {
	it.i = 0
	for it.i < len(it.Pairs) && bytes.Compare(it.Pairs[it.i].Key, key) < 0 {
		it.i++
	}
	return it.i < len(it.Pairs)
}
func (it *Iterator) Key() []byte {
	if it.i < 0 || it.i >= len(it.Pairs) {
		return nil
	}
	return it.Pairs[it.i].Key
}
func (it *Iterator) Value() []byte {
	if it.i < 0 || it.i >= len(it.Pairs) {
		return nil
	}
	return it.Pairs[it.i].Value
}
func (it *Iterator) Error() error { return nil }
func (it *Iterator) Release()     {}
