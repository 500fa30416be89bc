package onroad_pool

import (
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/ldb"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func verifAddr(b byte, contract bool) types.Address {
	var a types.Address
	a[0], a[19] = b, b
	if contract {
		a[20] = types.ContractAddrByte
	}
	return a
}

var (
	verifTargets = []types.Address{verifAddr(0x31, true), verifAddr(0x32, true)}
	verifCallers = []types.Address{verifAddr(0x51, false), verifAddr(0x52, false), verifAddr(0x61, true)}
)

// verifSend is one call on its way: the model of what the ledger knows about it.
type verifSend struct {
	block  *ledger.AccountBlock
	host   *ledger.AccountBlock // the receive of the calling contract that sent it
	height uint64
	index  int
	done   bool
}

type verifLedger struct {
	sends  []*verifSend
	height []uint64 // of each caller's last block
	count  byte
}

func (l *verifLedger) find(h types.Hash) *verifSend {
	for _, s := range l.sends {
		if s.block.Hash == h {
			return s
		}
	}
	return nil
}

// LoadOnRoadRange: every call not yet received, in no particular order of callers.
func (l *verifLedger) LoadOnRoadRange(gid types.Gid, fn interfaces.LoadOnroadFn) error {
	for i := len(l.sends) - 1; i >= 0; i-- {
		s := l.sends[i]
		if s.done {
			continue
		}
		if err := fn(s.block.AccountAddress, s.block.ToAddress, ledger.HashHeight{Hash: s.block.Hash, Height: s.height}); err != nil {
			return err
		}
	}
	return nil
}

func (l *verifLedger) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	if s := l.find(h); s != nil {
		return s.block, nil
	}
	return nil, nil
}

func (l *verifLedger) GetCompleteBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	s := l.find(h)
	if s == nil {
		return nil, nil
	}
	if s.host != nil {
		return s.host, nil
	}
	return s.block, nil
}

func (l *verifLedger) newHash(low bool) types.Hash {
	l.count++
	var h types.Hash
	h[31] = l.count
	if low {
		h[0] = 0x80 - l.count
	} else {
		h[0] = 0x80 + l.count
	}
	return h
}

// nextHeight is any later height of the caller's chain.
func (l *verifLedger) nextHeight(c int) uint64 {
	gap := uint64(sym.Byte("height gap"))
	sym.Assume(gap > 0)
	l.height[c] += gap
	return l.height[c]
}

// front is the call of the caller to the contract that comes next.
func (l *verifLedger) front(to, from types.Address) *verifSend {
	var best *verifSend
	for _, s := range l.sends {
		if s.done || s.block.ToAddress != to || s.block.AccountAddress != from {
			continue
		}
		if best == nil { // sends are recorded in the order in which they were made
			best = s
		}
	}
	return best
}

func verifCheck(p OnRoadPool, l *verifLedger) {
	for _, to := range verifTargets {
		got, err := p.GetFrontOnRoadBlocksByAddr(to)
		sym.Assert(err == nil, "the-pool-answers")
		n := 0
		for _, from := range verifCallers {
			f := l.front(to, from)
			if f != nil {
				n++
				seen := 0
				for _, b := range got {
					if b.Hash == f.block.Hash {
						seen++
					}
				}
				sym.Assert(seen == 1, "the-first-pending-call-of-every-caller-is-offered")
			}
			for _, s := range l.sends {
				if s.block.ToAddress != to || s.block.AccountAddress != from {
					continue
				}
				ok, _ := p.IsFrontOnRoadOfCaller(to, from, s.block.Hash)
				sym.Assert(ok == (s == f), "exactly-the-first-pending-call-may-be-received")
			}
		}
		sym.Assert(len(got) == n, "nothing-else-is-offered")
	}
}

// VerifH_History: any history of sends, receives, rollbacks and restarts.
func VerifH_History() {
	l := &verifLedger{height: []uint64{1, 200, 1}}
	var gid types.Gid
	p := NewContractOnRoadPool(gid, l, ldb.Open())
	var undo []func()
	ops := sym.Param("ops", 3)
	insert := func(to types.Address, bs []*ledger.AccountBlock) {
		sym.Assert(p.InsertAccountBlocks(to, bs) == nil, "blocks-of-the-ledger-are-taken")
	}
	remove := func(to types.Address, bs []*ledger.AccountBlock) {
		sym.Assert(p.DeleteAccountBlocks(to, bs) == nil, "blocks-of-the-ledger-are-taken-back")
	}
	for i := 0; i < ops; i++ {
		switch op := sym.Choose("op", 5); op {
		case 0, 1: // a user sends, once or twice
			if i == ops-1 && op == 1 {
				sym.Stop()
			}
			c := sym.Choose("user", 2)
			to := verifTargets[sym.Choose("to", 2)]
			var bs []*ledger.AccountBlock
			n0 := len(l.sends)
			h0 := l.height[c]
			for k := 0; k <= op; k++ {
				b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: verifCallers[c], ToAddress: to, Height: l.nextHeight(c), Hash: l.newHash(k == 1)}
				l.sends = append(l.sends, &verifSend{block: b, height: b.Height})
				bs = append([]*ledger.AccountBlock{b}, bs...)
			}
			insert(to, bs)
			undo = append(undo, func() {
				remove(to, bs)
				l.sends = l.sends[:n0]
				l.height[c] = h0
			})
		case 2: // a contract's receive sends two calls
			n0 := len(l.sends)
			h0 := l.height[2]
			host := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: verifCallers[2], Height: l.nextHeight(2), Hash: l.newHash(true)}
			by := map[types.Address][]*ledger.AccountBlock{}
			low := sym.Choose("hash order", 2) == 1
			for k := 0; k < 2; k++ {
				to := verifTargets[sym.Choose("to", 2)]
				b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: verifCallers[2], ToAddress: to, Hash: l.newHash(low)}
				host.SendBlockList = append(host.SendBlockList, b)
				l.sends = append(l.sends, &verifSend{block: b, host: host, height: host.Height, index: k})
				by[to] = append(by[to], b)
			}
			for _, to := range verifTargets {
				if len(by[to]) > 0 {
					insert(to, by[to])
				}
			}
			undo = append(undo, func() {
				for _, to := range verifTargets {
					if len(by[to]) > 0 {
						remove(to, by[to])
					}
				}
				l.sends = l.sends[:n0]
				l.height[2] = h0
			})
		case 3: // a contract receives what comes next from a caller
			to := verifTargets[sym.Choose("to", 2)]
			from := verifCallers[sym.Choose("caller", 3)]
			f := l.front(to, from)
			if f == nil {
				sym.Stop()
			}
			b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: to, Height: 9, Hash: l.newHash(true), FromBlockHash: f.block.Hash}
			insert(to, []*ledger.AccountBlock{b})
			f.done = true
			undo = append(undo, func() {
				remove(to, []*ledger.AccountBlock{b})
				f.done = false
			})
		case 4: // rollback of the last block, or a restart
			if len(undo) == 0 {
				sym.Stop()
			}
			if sym.Choose("restart", 2) == 1 {
				p = NewContractOnRoadPool(gid, l, ldb.Open())
				sym.Reach("restarted")
			} else {
				undo[len(undo)-1]()
				undo = undo[:len(undo)-1]
				sym.Reach("rolled-back")
			}
		}
		if i >= 1 {
			verifCheck(p, l)
		}
	}
	sym.Reach("done")
}

// VerifH_TxCodec: what is stored about a call is what is read back, and calls sort by caller, then height.
func VerifH_TxCodec() {
	gen := func() OnroadTx {
		var tx OnroadTx
		sym.Fill("from", tx.FromAddr[:])
		sym.Fill("to", tx.ToAddr[:])
		sym.Fill("hash", tx.FromHash[:])
		tx.FromHeight = sym.Uint64("height")
		if sym.Choose("indexed", 2) == 1 {
			i := sym.Uint32("index")
			tx.FromIndex = &i
		}
		return tx
	}
	tx := gen()
	k := tx.toOnroadHeightKey()
	got, err := newOnroadTxFromBytes(k.Bytes(), tx.toOnroadHeightValue())
	sym.Assert(err == nil, "read-back")
	sym.Assert(sym.And(sym.EqBytes(got.FromAddr[:], tx.FromAddr[:]), sym.EqBytes(got.ToAddr[:], tx.ToAddr[:]), sym.EqBytes(got.FromHash[:], tx.FromHash[:]), got.FromHeight == tx.FromHeight), "read-back-equal")
	sym.Assert((got.FromIndex == nil) == (tx.FromIndex == nil) && (tx.FromIndex == nil || *got.FromIndex == *tx.FromIndex), "index-read-back")
	or := newOrHashHeightFromOnroadTx(&tx)
	back := newOnroadTxFromOrHashHeight(tx.FromAddr, tx.ToAddr, *or)
	sym.Assert(sym.And(sym.EqBytes(back.FromHash[:], tx.FromHash[:]), back.FromHeight == tx.FromHeight, back.FromIndex == tx.FromIndex), "the-entry-is-the-call")
	other := gen()
	sym.Assume(sym.And(sym.EqBytes(other.FromAddr[:], tx.FromAddr[:]), sym.EqBytes(other.ToAddr[:], tx.ToAddr[:])))
	k2 := other.toOnroadHeightKey()
	sym.Assert(sym.Implies(tx.FromHeight < other.FromHeight, string(k.Bytes()) < string(k2.Bytes())), "earlier-blocks-come-first")
	sym.Reach("done")
}
