// Package builtin runs requests to built-in contracts through the VM over a ledger kept in plain slices.
package builtin

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/fakechain"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

const Newest = 1000000000 // a height after every upgrade

type World struct {
	*fakechain.Chain
	Reader  util.ConsensusReader
	n       byte
	Chained bool           // answers get the hashes they have on the chain
	Logs    core.VmLogList // of the last receive
}

// Status is what a contract may know of the snapshot chain.
type Status struct{ sb *core.SnapshotBlock }

func (s Status) Seed() (uint64, error)              { return 1, nil }
func (s Status) SnapshotBlock() *core.SnapshotBlock { return s.sb }
func (s Status) Random() (uint64, error)            { return 1, nil }

func New(height uint64, unix int64) *World {
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	vm.InitVMConfig(false, false, false, false, "")
	quota.VerifSetQuota(1000000, 0)
	w := &World{Chain: fakechain.New(height, unix)}
	for _, a := range []types.Address{types.AddressQuota, types.AddressGovernance, types.AddressAsset, types.AddressDexFund, types.AddressDexTrade} {
		w.Account(a).Meta = &core.ContractMeta{QuotaRatio: 10}
	}
	return w
}

func (w *World) hash() types.Hash {
	w.n++
	return types.Hash{0xcc, w.n, 31: w.n}
}

func total(before map[types.TokenTypeId]*big.Int, t types.TokenTypeId) *big.Int {
	if b, ok := before[t]; ok {
		return b
	}
	return new(big.Int)
}

// Send makes a request; it is executed and committed, or refused.
func (w *World) Send(from, to types.Address, token types.TokenTypeId, amount *big.Int, data []byte) (*core.AccountBlock, error) {
	a := w.Account(from)
	before, beforeVite := new(big.Int).Set(a.Balance(token)), new(big.Int).Set(a.Balance(core.ViteTokenId))
	block := &core.AccountBlock{BlockType: core.BlockTypeSendCall, Height: uint64(len(a.Blocks)) + 1, AccountAddress: from, ToAddress: to,
		Amount: new(big.Int).Set(amount), TokenId: token, Data: data, Fee: new(big.Int)}
	db := w.DB(from)
	r, retry, err := vm.NewVM(w.Reader).RunV2(db, block, nil, nil)
	sym.Assert(!retry && (r == nil) == (err != nil), "a-request-is-made-or-refused")
	if err != nil {
		return nil, err
	}
	b := r.AccountBlock
	b.Hash = w.hash()
	w.Commit(r.VmDb, b)
	sym.Assert(sym.And(b.Amount.Cmp(amount) == 0, b.TokenId == token, b.ToAddress == to, b.AccountAddress == from), "a-request-keeps-its-terms")
	if token == core.ViteTokenId {
		sym.Assert(new(big.Int).Add(a.Balance(token), new(big.Int).Add(amount, b.Fee)).Cmp(before) == 0, "the-sender-pays-amount-and-fee")
	} else {
		sym.Assert(sym.And(new(big.Int).Add(a.Balance(token), amount).Cmp(before) == 0, new(big.Int).Add(a.Balance(core.ViteTokenId), b.Fee).Cmp(beforeVite) == 0), "the-sender-pays-amount-and-fee")
	}
	sym.Assert(sym.And(a.Balance(token).Sign() >= 0, a.Balance(core.ViteTokenId).Sign() >= 0), "balances-are-never-negative")
	return b, nil
}

// Receive lets the destination of a request execute it. Whatever happens, for every token what the contract had
// plus what came in is what it keeps plus what it sends (minted rewards aside, which are returned), plus burned
// amounts when burns is set. A failure leaves nothing behind and returns amount and fee.
func (w *World) Receive(send *core.AccountBlock, burned *big.Int) (*core.AccountBlock, error) {
	to := send.ToAddress
	a := w.Account(to)
	tokens := []types.TokenTypeId{core.ViteTokenId}
	for _, b := range a.Balances {
		if b.Token != core.ViteTokenId {
			tokens = append(tokens, b.Token)
		}
	}
	known := false
	for _, t := range tokens {
		known = known || t == send.TokenId
	}
	if !known {
		tokens = append(tokens, send.TokenId)
	}
	before := make([]*big.Int, len(tokens))
	for i, t := range tokens {
		before[i] = new(big.Int).Set(a.Balance(t))
	}
	amount, fee := new(big.Int).Set(send.Amount), new(big.Int)
	if send.Fee != nil {
		fee.Set(send.Fee)
	}
	block := &core.AccountBlock{BlockType: core.BlockTypeReceive, Height: uint64(len(a.Blocks)) + 1, AccountAddress: to, FromBlockHash: send.Hash}
	db := w.DB(to)
	r, retry, err := vm.NewVM(w.Reader).RunV2(db, block, send, Status{w.Latest()})
	sym.Assert(!retry && r != nil, "a-request-is-executed-once")
	b := r.AccountBlock
	b.Hash = w.hash()
	w.Logs = r.VmDb.GetLogList()
	if err != nil {
		sym.Assert(len(r.VmDb.GetUnsavedStorage()) == 0 && len(w.Logs) == 0, "a-failed-request-leaves-nothing-behind")
	}
	w.Commit(r.VmDb, b)
	sym.Assert(sym.And(send.Amount.Cmp(amount) == 0, send.Fee == nil || send.Fee.Cmp(fee) == 0), "the-request-is-not-changed")
	for i, s := range b.SendBlockList {
		if w.Chained {
			s.Hash = s.ComputeSendHash(b, uint8(i))
		} else {
			s.Hash = w.hash()
		}
		sym.Assert(s.AccountAddress == to && s.Amount.Sign() >= 0, "answers-come-from-the-contract")
	}
	for i, t := range tokens {
		l := before[i]
		if t == send.TokenId {
			l = new(big.Int).Add(l, amount)
			if err == nil && burned != nil {
				l = new(big.Int).Sub(l, burned)
			}
		}
		if t == core.ViteTokenId && err != nil {
			l = new(big.Int).Add(l, fee)
		}
		o := new(big.Int).Set(a.Balance(t))
		sym.Assert(o.Sign() >= 0, "balances-are-never-negative")
		for _, s := range b.SendBlockList {
			if s.BlockType != core.BlockTypeSendReward && s.TokenId == t {
				o.Add(o, s.Amount)
			}
		}
		sym.Assert(l.Cmp(o) == 0, "what-a-contract-had-and-got-it-keeps-or-sends")
	}
	if err != nil {
		back, backVite := new(big.Int), new(big.Int)
		for _, s := range b.SendBlockList {
			sym.Assert(s.ToAddress == send.AccountAddress && s.BlockType != core.BlockTypeSendReward, "a-failed-request-is-answered-to-its-sender-only")
			if s.TokenId == core.ViteTokenId {
				backVite.Add(backVite, s.Amount)
			} else {
				sym.Assert(s.TokenId == send.TokenId, "a-failed-request-returns-its-token")
				back.Add(back, s.Amount)
			}
		}
		want, wantVite := amount, fee
		if send.TokenId == core.ViteTokenId {
			want, wantVite = new(big.Int), new(big.Int).Add(amount, fee)
		}
		sym.Assert(sym.And(back.Cmp(want) == 0, backVite.Cmp(wantVite) == 0), "a-failed-request-returns-amount-and-fee")
	}
	return b, err
}

// Minted lists what a receive created out of nothing.
func Minted(b *core.AccountBlock) []*core.AccountBlock {
	var r []*core.AccountBlock
	for _, s := range b.SendBlockList {
		if s.BlockType == core.BlockTypeSendReward {
			r = append(r, s)
		}
	}
	return r
}

// View is a database for reading the committed state of an account.
func (w *World) View(addr types.Address) interfaces.VmDb { return w.DB(addr) }

// Big10 is 10^n.
func Big10(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }
