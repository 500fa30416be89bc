package consensus

import (
	"math/big"
	"time"

	"github.com/syndtr/goleveldb/leveldb"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/cdb"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zz_verif/ldb"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// verifChain is a snapshot chain whose blocks can be appended and rolled back.
type verifChain struct {
	Chain
	blocks []*ledger.SnapshotBlock
	period []int // the period of each block
	off    []uint64
	made   byte
	seed   uint64
}

const (
	verifSlot   = 300           // seconds of a slot
	verifPeriod = 4 * verifSlot // two slots of each of two members in a period
	verifPerH   = 3600 / verifPeriod
)

var (
	verifGenesisTime = time.Unix(1558411200, 0)
	verifKeys        = [][]byte{{1, 1, 1}, {2, 2, 2}, {3, 3, 3}}
	verifNames       = []string{"a", "b", "c"}
)

func verifAddr(i int) types.Address { return types.PubkeyToAddress(verifKeys[i]) }

func verifNewChain() *verifChain {
	c := &verifChain{}
	t := verifGenesisTime
	c.blocks = append(c.blocks, &ledger.SnapshotBlock{Height: 1, Hash: types.Hash{1, 0}, Timestamp: &t, PublicKey: verifKeys[0]})
	c.period, c.off = []int{0}, []uint64{0}
	return c
}

// add appends a block in a later or the same period, at any instant of it.
func (c *verifChain) add(skip, producer int) {
	last := len(c.blocks) - 1
	p := c.period[last] + skip
	off := uint64(sym.Uint16("instant"))
	sym.Assume(off < verifPeriod)
	if skip == 0 {
		sym.Assume(off > c.off[last])
	}
	c.made++
	t := verifGenesisTime.Add(time.Duration(uint64(p)*verifPeriod+off) * time.Second)
	c.blocks = append(c.blocks, &ledger.SnapshotBlock{Height: uint64(last + 2), Hash: types.Hash{2, c.made}, PrevHash: c.blocks[last].Hash, Timestamp: &t, PublicKey: verifKeys[producer]})
	c.period = append(c.period, p)
	c.off = append(c.off, off)
}

func (c *verifChain) rollback(n int) {
	n = len(c.blocks) - n
	c.blocks, c.period, c.off = c.blocks[:n:n], c.period[:n:n], c.off[:n:n]
}

func (c *verifChain) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return c.blocks[0] }
func (c *verifChain) GetLatestSnapshotBlock() *ledger.SnapshotBlock  { return c.blocks[len(c.blocks)-1] }
func (c *verifChain) IsGenesisSnapshotBlock(h types.Hash) bool       { return h == c.blocks[0].Hash }
func (c *verifChain) GetSnapshotBlockByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	for _, b := range c.blocks {
		if b.Hash == h {
			return b, nil
		}
	}
	return nil, nil
}
func (c *verifChain) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if h < 1 || h > uint64(len(c.blocks)) {
		return nil, nil
	}
	return c.blocks[h-1], nil
}
func (c *verifChain) GetSnapshotHeaderBeforeTime(t *time.Time) (*ledger.SnapshotBlock, error) {
	for i := len(c.blocks) - 1; i >= 0; i-- {
		if c.blocks[i].Timestamp.Before(*t) {
			return c.blocks[i], nil
		}
	}
	return nil, nil
}
func (c *verifChain) GetSnapshotHeadersAfterOrEqualTime(end *ledger.HashHeight, start *time.Time, producer *types.Address) ([]*ledger.SnapshotBlock, error) {
	var r []*ledger.SnapshotBlock
	for i := int(end.Height) - 1; i > 0 && !c.blocks[i].Timestamp.Before(*start); i-- {
		r = append(r, c.blocks[i])
	}
	return r, nil
}
func (c *verifChain) NewDb(string) (*leveldb.DB, error) { return ldb.Open(), nil }
func (c *verifChain) GetRandomSeed(h types.Hash, n int) uint64 {
	return uint64(h[0])<<8 | uint64(h[1])
}
func (c *verifChain) GetConsensusGroupList(types.Hash) ([]*types.ConsensusGroupInfo, error) {
	d := *verifGroup()
	d.Gid, d.CheckLevel = types.DELEGATE_GID, 1
	return []*types.ConsensusGroupInfo{verifGroup(), &d}, nil
}
func (c *verifChain) GetRegisterList(types.Hash, types.Gid) ([]*types.Registration, error) {
	var r []*types.Registration
	for i, n := range verifNames {
		r = append(r, &types.Registration{Name: n, BlockProducingAddress: verifAddr(i), HisAddrList: []types.Address{verifAddr(i)}})
	}
	return r, nil
}
func (c *verifChain) GetAllRegisterList(h types.Hash, g types.Gid) ([]*types.Registration, error) {
	return c.GetRegisterList(h, g)
}
func (c *verifChain) GetVoteList(types.Hash, types.Gid) ([]*types.VoteInfo, error) {
	var r []*types.VoteInfo
	for i, n := range verifNames {
		r = append(r, &types.VoteInfo{VoteAddr: types.Address{9, byte(i)}, SbpName: n})
	}
	return r, nil
}

// the votes differ with the snapshot they are counted at
func verifVotes(i int, h types.Hash) int64 {
	return 1000 + int64(i*i*50) + int64(h[1])*int64(70*(i%2)+1)
}

func (c *verifChain) GetConfirmedBalanceList(addrs []types.Address, token types.TokenTypeId, h types.Hash) (map[types.Address]*big.Int, error) {
	r := make(map[types.Address]*big.Int)
	for _, a := range addrs {
		r[a] = big.NewInt(verifVotes(int(a[1]), h))
	}
	return r, nil
}

func verifGroup() *types.ConsensusGroupInfo {
	return &types.ConsensusGroupInfo{Gid: types.SNAPSHOT_GID, NodeCount: 2, Interval: verifSlot, PerCount: 2, RandCount: 0, RandRank: 2, Repeat: 1, CheckLevel: 0, CountingTokenId: ledger.ViteTokenId}
}

// verifElection stands in for the election: its members depend on the period and on the chain before it.
type verifElection struct {
	*core.GroupInfo
	c *verifChain
}

func (e *verifElection) GetInfo() *core.GroupInfo                              { return e.GroupInfo }
func (e *verifElection) GenProofTime(i uint64) time.Time                       { s, _ := e.Index2Time(i); return s }
func (e *verifElection) VerifyProducer(types.Address, time.Time) (bool, error) { return true, nil }
func (e *verifElection) ElectionIndex(i uint64) (*electionResult, error) {
	return genElectionResult(e.GroupInfo, i, e.c.members(int(i))), nil
}

// members elected for a period: the first and, depending on the last block before the period, another.
func (c *verifChain) members(p int) []types.Address {
	k := 0
	for i := range c.blocks {
		if c.period[i] < p {
			k = i
		}
	}
	return []types.Address{verifAddr(0), verifAddr(1 + int(c.blocks[k].Hash[1])%2)}
}

// verifCounts counts blocks and slots of the periods from..to (exclusive) that have blocks.
func (c *verifChain) counts(from, to int) (first, last int, m map[types.Address]*cdb.Content) {
	m = make(map[types.Address]*cdb.Content)
	first, last = -1, 0
	at := func(a types.Address) *cdb.Content {
		if m[a] == nil {
			m[a] = &cdb.Content{}
		}
		return m[a]
	}
	planned := -1
	for i := range c.blocks {
		if c.period[i] < to {
			last = i
		}
		if i == 0 || c.period[i] < from || c.period[i] >= to {
			continue
		}
		if first < 0 {
			first = i
		}
		at(c.blocks[i].Producer()).FactualNum++
		if planned != c.period[i] {
			planned = c.period[i]
			for _, a := range c.members(planned) {
				at(a).ExpectedNum += 2
			}
		}
	}
	return
}

func verifSameCounts(got, want map[types.Address]*cdb.Content) bool {
	if len(got) != len(want) {
		return false
	}
	for a, w := range want {
		g := got[a]
		if g == nil || *g != *w {
			return false
		}
	}
	return true
}

// verifPoint compares a point with the blocks of the periods from..to.
func (c *verifChain) check(p *cdb.Point, err error, from, to int, kind string) {
	sym.Assert(err == nil && p != nil, kind+"-read")
	first, last, m := c.counts(from, to)
	sym.Assert(p.Hash == c.blocks[last].Hash, kind+"-ends-at-its-last-block")
	if first < 0 {
		sym.Assert(p.IsEmpty() && len(p.Sbps) == 0, kind+"-without-blocks-is-empty")
		return
	}
	sym.Assert(p.PrevHash == c.blocks[first].PrevHash, kind+"-starts-at-its-first-block")
	sym.Assert(verifSameCounts(p.Sbps, m), kind+"-counts-blocks-and-slots")
}

func verifArrays(c *verifChain) *chainRw {
	info := core.NewGroupInfo(verifGenesisTime, *verifGroup())
	log := log15.New()
	rw := &chainRw{rw: c, genesisTime: verifGenesisTime, log: log, dbCache: cdb.NewConsensusDB(ldb.Open())}
	proof := newRollbackProof(c)
	el := &verifElection{info, c}
	cs := &snapshotCs{GroupInfo: *info, rw: rw, log: log}
	rw.periodPoints = newPeriodPointArray(c, el, proof, log)
	rw.hourPoints = newHourLinkedArray(rw.periodPoints, rw.dbCache, proof, verifPeriod*time.Second, verifGenesisTime, log)
	rw.dayPoints = newDayLinkedArray(rw.hourPoints, rw.dbCache, proof, cs.dayVoteStat, verifGenesisTime, log)
	rw.snapshot = cs
	return rw
}

func (c *verifChain) query(rw *chainRw, kind int) {
	last := c.period[len(c.blocks)-1]
	switch kind {
	case 0:
		for p := 0; p <= last+1; p++ {
			pt, err := rw.periodPoints.GetByIndex(uint64(p))
			c.check(pt, err, p, p+1, "period")
		}
	case 1, 2: // an hour, the current or the one before
		h := last/verifPerH - (kind - 1)
		if h < 0 {
			return
		}
		pt, err := rw.hourPoints.GetByIndex(uint64(h))
		c.check(pt, err, h*verifPerH, (h+1)*verifPerH, "hour")
	case 3:
		pt, err := rw.dayPoints.GetByIndex(0)
		c.check(pt, err, 0, 24*verifPerH, "day")
		if !pt.IsEmpty() {
			head := c.blocks[len(c.blocks)-1].Hash
			total, top := int64(0), [2]int{}
			best := int64(-1)
			for i := range verifNames {
				for j := i + 1; j < len(verifNames); j++ {
					if s := verifVotes(i, head) + verifVotes(j, head); s > best {
						best, top = s, [2]int{i, j}
					}
				}
			}
			total = best
			sym.Assert(pt.Votes != nil && len(pt.Votes.Details) == 2 && pt.Votes.Total.Cmp(big.NewInt(total)) == 0, "day-votes-total")
			for _, i := range top {
				v := pt.Votes.Details[verifNames[i]]
				sym.Assert(v != nil && v.Cmp(big.NewInt(verifVotes(i, head))) == 0, "day-votes-of-the-top")
			}
		}
	case 4:
		rates, err := rw.GetSuccessRateByHour(uint64(last))
		sym.Assert(err == nil, "rates-read")
		_, _, m := c.counts(last-47, last+1)
		sym.Assert(len(rates) == len(m), "rates-of-all")
		for a, w := range m {
			r := int32(-1)
			if w.ExpectedNum > 0 {
				r = int32(w.FactualNum * 1000000 / w.ExpectedNum)
			}
			got, ok := rates[a]
			sym.Assert(ok && got == r, "rate-is-made-of-planned")
		}
	}
}

// verifHistory grows a chain, asks something (or nothing), rolls back and grows it again.
func verifHistory(c *verifChain, before, after, producers int, ask func()) {
	grow := func(n int) {
		for i := 0; i < n; i++ {
			c.add([]int{1, 0, 4}[sym.Choose("periods later", 3)], sym.Choose("producer", producers))
		}
	}
	grow(1 + sym.Choose("blocks", before))
	ask()
	if sym.Choose("roll back", 2) == 1 {
		c.rollback(1 + sym.Choose("rolled back", len(c.blocks)-1))
	}
	grow(sym.Choose("blocks after", after+1))
}

// VerifH_Statistics: whatever was asked before and whatever was rolled back, statistics count the current chain.
func VerifH_Statistics() {
	c := verifNewChain()
	rw := verifArrays(c)
	verifHistory(c, sym.Param("before", 2), sym.Param("after", 1), 2, func() {
		if k := sym.Choose("asked", 4); k < 3 {
			c.query(rw, []int{0, 1, 3}[k])
		}
	})
	for k := 0; k < 5; k++ {
		c.query(rw, k)
	}
	sym.Reach("statistics")
}

// VerifH_StatisticsOps: the same over arbitrary sequences of blocks, rollbacks and questions.
func VerifH_StatisticsOps() {
	c := verifNewChain()
	rw := verifArrays(c)
	for i, n := 0, sym.Param("ops", 4); i < n; i++ {
		switch sym.Choose("operation", 3) {
		case 0:
			c.add([]int{0, 1, 4}[sym.Choose("periods later", 3)], sym.Choose("producer", 3))
		case 1:
			if len(c.blocks) < 2 {
				sym.Stop()
			}
			c.rollback(1 + sym.Choose("rolled back", len(c.blocks)-1))
		case 2:
			if i == 0 {
				sym.Stop()
			}
			c.query(rw, sym.Choose("query", 5))
		}
	}
	for k := 0; k < 5; k++ {
		c.query(rw, k)
	}
	sym.Reach("statistics")
}
