package chain_cache

import (
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// verifLedger is the ledger the cache mirrors: confirmed blocks per snapshot and the unconfirmed blocks in order.
type verifLedger struct {
	chunks []*ledger.SnapshotChunk // height 1..
	open   []*ledger.AccountBlock
	n      byte
	gone   []*ledger.AccountBlock
	goneSb []*ledger.SnapshotBlock
	heads  [2]uint64
}

var verifAddrs = []types.Address{{0x11}, {0x22}}

func (l *verifLedger) latest() *ledger.SnapshotBlock { return l.chunks[len(l.chunks)-1].SnapshotBlock }

func (l *verifLedger) QueryLatestSnapshotBlock() (*ledger.SnapshotBlock, error) { return l.latest(), nil }
func (l *verifLedger) QuerySnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	return l.GetSnapshotBlockByHeight(h)
}
func (l *verifLedger) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if h < 1 || h > uint64(len(l.chunks)) {
		return nil, nil
	}
	return l.chunks[h-1].SnapshotBlock, nil
}

// GetSubLedger: the first chunk has only its snapshot block, as reading starts there.
func (l *verifLedger) GetSubLedger(start, end uint64) ([]*ledger.SnapshotChunk, error) {
	if end > uint64(len(l.chunks)) {
		end = uint64(len(l.chunks))
	}
	if start < 1 || start > end {
		return nil, nil
	}
	r := []*ledger.SnapshotChunk{{SnapshotBlock: l.chunks[start-1].SnapshotBlock}}
	return append(r, l.chunks[start:end]...), nil
}
func (l *verifLedger) GetSubLedgerAfterHeight(h uint64) ([]*ledger.SnapshotChunk, error) {
	return l.GetSubLedger(h, uint64(len(l.chunks)))
}

func (l *verifLedger) newBlock(a int) *ledger.AccountBlock {
	l.n++
	l.heads[a]++
	b := &ledger.AccountBlock{AccountAddress: verifAddrs[a], Height: l.heads[a], Hash: types.Hash{0x80, l.n}}
	q := sym.Byte("stake quota")
	b.Quota = uint64(q)
	if a == 1 { // the second account is a contract, whose receives hold sends
		b.SendBlockList = []*ledger.AccountBlock{{AccountAddress: verifAddrs[a], Hash: types.Hash{0x81, l.n}}}
	}
	b.QuotaUsed = uint64(q) + uint64(sym.Byte("work quota"))
	return b
}

func (l *verifLedger) newSnapshot(blocks []*ledger.AccountBlock) *ledger.SnapshotBlock {
	l.n++
	s := &ledger.SnapshotBlock{Height: uint64(len(l.chunks) + 1), Hash: types.Hash{0x40, l.n}}
	l.chunks = append(l.chunks, &ledger.SnapshotChunk{SnapshotBlock: s, AccountBlocks: blocks})
	return s
}

type verifQuota struct{ count, total, used uint64 }

func verifSum(blocks []*ledger.AccountBlock, a int) verifQuota {
	var q verifQuota
	for _, b := range blocks {
		if a < 0 || b.AccountAddress == verifAddrs[a] {
			q.count++
			q.total += b.Quota
			q.used += b.QuotaUsed
		}
	}
	return q
}

func verifSameBlocks(got, want []*ledger.AccountBlock) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range want {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// verifCheck compares everything the cache answers with the ledger.
func verifCheck(c *Cache, l *verifLedger, window int) {
	sym.Assert(c.GetLatestSnapshotBlock() == l.latest(), "latest-snapshot")
	sym.Assert(verifSameBlocks(c.GetUnconfirmedBlocks(), l.open), "unconfirmed-blocks-in-order")
	var all verifQuota
	for a, addr := range verifAddrs {
		addr := addr
		var mine []*ledger.AccountBlock
		var last *ledger.AccountBlock
		for _, b := range l.open {
			if b.AccountAddress == addr {
				mine = append(mine, b)
				last = b
			}
		}
		sym.Assert(verifSameBlocks(c.GetUnconfirmedBlocksByAddress(&addr), mine), "unconfirmed-blocks-of-an-account")
		got := c.GetLatestAccountBlock(addr)
		if last != nil {
			sym.Assert(got == last || got == nil, "latest-account-block")
		} else if got != nil {
			for _, ch := range l.chunks {
				for _, b := range ch.AccountBlocks {
					if b.AccountAddress == addr {
						last = b
					}
				}
			}
			sym.Assert(got == last, "latest-account-block")
		}
		// quota used in the window: the last window-1 snapshots and what is unconfirmed
		list := c.GetQuotaUsedList(addr)
		want := []verifQuota{}
		first := len(l.chunks) - (window - 1)
		if first < 1 { // the genesis snapshot confirms nothing
			first = 1
		}
		for _, ch := range l.chunks[first:] {
			q := verifSum(ch.AccountBlocks, a)
			want = append(want, q)
			all = verifQuota{all.count + q.count, all.total + q.total, all.used + q.used}
		}
		want = append(want, verifSum(l.open, a))
		sym.Assert(len(list) == len(want), "quota-window-length")
		for i, w := range want {
			sym.Assert(sym.And(list[i].BlockCount == w.count, list[i].QuotaTotal == w.total, list[i].QuotaUsedTotal == w.used), "quota-used-in-the-window")
		}
	}
	g := c.GetGlobalQuota()
	sym.Assert(sym.And(g.BlockCount == all.count, g.QuotaTotal == all.total, g.QuotaUsedTotal == all.used), "global-quota-is-what-the-window-confirmed")
	for _, b := range l.open {
		sym.Assert(c.GetAccountBlockByHash(b.Hash) == b && c.GetAccountBlockByHeight(b.AccountAddress, b.Height) == b && c.IsAccountBlockExisted(b.Hash), "unconfirmed-blocks-are-found")
		for _, s := range b.SendBlockList {
			sym.Assert(c.GetAccountBlockByHash(s.Hash) == b && c.IsAccountBlockExisted(s.Hash), "sends-of-a-contract-are-found")
		}
	}
	for _, b := range l.gone {
		sym.Assert(c.GetAccountBlockByHash(b.Hash) == nil && !c.IsAccountBlockExisted(b.Hash), "deleted-blocks-are-gone")
		for _, s := range b.SendBlockList {
			sym.Assert(c.GetAccountBlockByHash(s.Hash) == nil && !c.IsAccountBlockExisted(s.Hash), "deleted-sends-are-gone")
		}
	}
	for h := uint64(1); h <= uint64(len(l.chunks)); h++ {
		sb := l.chunks[h-1].SnapshotBlock
		got, head := c.GetSnapshotBlockByHeight(h), c.GetSnapshotHeaderByHeight(h)
		byHash := c.GetSnapshotBlockByHash(sb.Hash)
		sym.Assert((got == nil || got == sb) && (head == nil || head == sb) && (byHash == nil || byHash == sb), "snapshots-are-the-ledger's")
		sym.Assert(c.IsSnapshotBlockExisted(sb.Hash) == (byHash != nil), "snapshots-are-the-ledger's")
		if h == uint64(len(l.chunks)) && h > 5 {
			sym.Assert(got == sb && byHash == sb, "new-snapshots-are-found")
		}
	}
	sym.Assert(c.GetSnapshotBlockByHeight(uint64(len(l.chunks)+1)) == nil && c.GetSnapshotHeaderByHeight(uint64(len(l.chunks)+1)) == nil, "no-snapshot-beyond-the-latest")
	for _, sb := range l.goneSb {
		sym.Assert(c.GetSnapshotBlockByHash(sb.Hash) == nil && c.GetSnapshotHeaderByHash(sb.Hash) == nil && !c.IsSnapshotBlockExisted(sb.Hash), "deleted-snapshots-are-gone")
	}
}

// VerifH_History: after any history of insertions, snapshots and rollbacks the cache answers as the ledger does.
func VerifH_History() {
	l := &verifLedger{}
	for i := range l.heads {
		l.heads[i] = 0
	}
	l.newSnapshot(nil)
	for i, n := 0, sym.Choose("snapshots before the start", 5); i < n; i++ {
		var bs []*ledger.AccountBlock
		bs = append(bs, l.newBlock(i%2), l.newBlock(i%2))
		l.newSnapshot(bs)
	}
	c, err := NewCache(l)
	sym.Assert(err == nil, "cache")
	window, keep := 3, 4
	c.quotaList.usedAccumulateHeight, c.quotaList.listMaxLength = window, keep
	sym.Assert(c.Init() == nil, "init")
	verifCheck(c, l, window)
	for op, n := 0, sym.Param("ops", 3); op < n; op++ {
		k := sym.Choose("operation", 5)
		switch k {
		case 0, 1:
			b := l.newBlock(k)
			l.open = append(l.open, b)
			c.InsertAccountBlock(b)
		case 2: // a snapshot confirms some of the blocks
			// a snapshot confirms a prefix of each account's unconfirmed blocks
			var left [2]int
			for a := range verifAddrs {
				left[a] = sym.Choose("confirmed of the account", int(verifSum(l.open, a).count)+1)
			}
			var conf, rest []*ledger.AccountBlock
			for _, b := range l.open {
				a := int(b.AccountAddress[0]>>4) - 1
				if left[a] > 0 {
					left[a]--
					conf = append(conf, b)
				} else {
					rest = append(rest, b)
				}
			}
			l.open = rest
			s := l.newSnapshot(conf)
			c.InsertSnapshotBlock(s, conf)
			c.ResetUnconfirmedQuotas(c.GetUnconfirmedBlocks())
		case 3: // some last unconfirmed blocks are deleted
			if len(l.open) == 0 {
				sym.Stop()
			}
			m := sym.Choose("first deleted", len(l.open))
			del := append([]*ledger.AccountBlock{}, l.open[m:]...)
			l.open = append([]*ledger.AccountBlock{}, l.open[:m]...)
			for _, b := range del {
				l.heads[int(b.AccountAddress[0]>>4)-1]--
			}
			l.gone = append(l.gone, del...)
			sym.Assert(c.RollbackAccountBlocks(del) == nil, "rollback-blocks")
		case 4: // some last snapshots are deleted; the blocks of the first may be kept as unconfirmed
			if len(l.chunks) < 2 {
				sym.Stop()
			}
			m := 1 + sym.Choose("last kept", len(l.chunks)-1)
			del := append([]*ledger.SnapshotChunk{}, l.chunks[m:]...)
			if len(l.open) > 0 {
				del = append(del, &ledger.SnapshotChunk{AccountBlocks: l.open})
			}
			l.chunks = l.chunks[:m]
			var back []*ledger.AccountBlock
			if sym.Choose("keep blocks", 2) == 1 {
				back = del[0].AccountBlocks
			}
			for i, ch := range del {
				if ch.SnapshotBlock != nil {
					l.goneSb = append(l.goneSb, ch.SnapshotBlock)
				}
				for _, b := range ch.AccountBlocks {
					if i > 0 || len(back) == 0 {
						l.gone = append(l.gone, b)
						l.heads[int(b.AccountAddress[0]>>4)-1]--
					}
				}
			}
			l.open = append([]*ledger.AccountBlock{}, back...)
			sym.Assert(c.RollbackSnapshotBlocks(del, back) == nil, "rollback-snapshots")
		}
		verifCheck(c, l, window)
	}
	sym.Reach("history")
}
