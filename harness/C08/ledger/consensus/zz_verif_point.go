package consensus

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/cdb"
	"github.com/vitelabs/go-vite/v2/zz_verif/ldb"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func verifSomePoint(n int) *cdb.Point {
	p := &cdb.Point{Sbps: make(map[types.Address]*cdb.Content)}
	sym.Fill("hash", p.Hash[:])
	sym.Fill("prev", p.PrevHash[:])
	for i := 0; i < n; i++ {
		p.Sbps[verifAddr(i)] = &cdb.Content{ExpectedNum: sym.Uint32("expected"), FactualNum: sym.Uint32("factual")}
	}
	return p
}

// VerifH_Stored: a stored point is read back equal, under its kind and index and no other.
func VerifH_Stored() {
	db := cdb.NewConsensusDB(ldb.Open())
	p := verifSomePoint(sym.Choose("producers", 3))
	if sym.Choose("votes", 2) == 1 {
		p.Votes = &cdb.VoteContent{Total: sym.BigInt("total", 80), Details: map[string]*big.Int{}}
		for i, n := 0, sym.Choose("details", 3); i < n; i++ {
			p.Votes.Details[verifNames[i]] = big.NewInt(int64(sym.Uint32("votes")))
		}
	}
	i := sym.Uint64("index")
	sym.Assert(db.StorePointByHeight(cdb.IndexPointHour, i, p) == nil, "store")
	g, err := db.GetPointByHeight(cdb.IndexPointHour, i)
	sym.Assert(err == nil && g != nil, "read")
	sym.Assert(sym.EqBytes(g.Hash[:], p.Hash[:]) && sym.EqBytes(g.PrevHash[:], p.PrevHash[:]), "hashes")
	sym.Assert(verifSameCounts(g.Sbps, p.Sbps), "counts")
	sym.Assert((g.Votes != nil) == (p.Votes != nil), "votes")
	if p.Votes != nil {
		sym.Assert(g.Votes.Total.Cmp(p.Votes.Total) == 0 && len(g.Votes.Details) == len(p.Votes.Details), "votes-total")
		for k, v := range p.Votes.Details {
			sym.Assert(g.Votes.Details[k] != nil && g.Votes.Details[k].Cmp(v) == 0, "votes-details")
		}
	}
	o, err := db.GetPointByHeight(cdb.IndexPointDay, i)
	sym.Assert(err == nil && o == nil, "kinds-are-separate")
	j := sym.Uint64("other")
	sym.Assume(j != i)
	o, err = db.GetPointByHeight(cdb.IndexPointHour, j)
	sym.Assert(err == nil && o == nil, "indexes-are-separate")
	sym.Assert(db.DeletePointByHeight(cdb.IndexPointHour, i) == nil, "delete")
	o, err = db.GetPointByHeight(cdb.IndexPointHour, i)
	sym.Assert(err == nil && o == nil, "deleted")
	sym.Reach("stored")
}

// VerifH_StoredElection: a stored election is read back in order.
func VerifH_StoredElection() {
	db := cdb.NewConsensusDB(ldb.Open())
	var h, other types.Hash
	sym.Fill("hash", h[:])
	sym.Fill("other", other[:])
	var as []types.Address
	for i, n := 0, sym.Choose("members", 4); i < n; i++ {
		var a types.Address
		sym.Fill("member", a[:])
		as = append(as, a)
	}
	sym.Assert(db.StoreElectionResultByHash(h, as) == nil, "store-election")
	g, err := db.GetElectionResultByHash(h)
	sym.Assert(err == nil && len(g) == len(as), "read-election")
	for i := range as {
		sym.Assert(sym.EqBytes(g[i][:], as[i][:]), "members-in-order")
	}
	sym.Assume(!sym.EqBytes(h[:], other[:]))
	g, err = db.GetElectionResultByHash(other)
	sym.Assert(err == nil && g == nil, "elections-are-separate")
	sym.Reach("stored")
}

// VerifH_Append: points are joined only where one ends at the other's start, and their counts add up.
func VerifH_Append() {
	a, b := verifSomePoint(2), verifSomePoint(sym.Choose("producers", 3))
	for _, p := range []*cdb.Point{a, b} {
		for _, c := range p.Sbps {
			sym.Assume(sym.And(c.ExpectedNum < 1<<30, c.FactualNum < 1<<30))
		}
	}
	ah, ap, bh, bp := a.Hash, a.PrevHash, b.Hash, b.PrevHash
	want := map[types.Address]*cdb.Content{}
	for i := 0; i < 2; i++ {
		k := verifAddr(i)
		c := *a.Sbps[k]
		if o := b.Sbps[k]; o != nil {
			c.ExpectedNum += o.ExpectedNum
			c.FactualNum += o.FactualNum
		}
		want[k] = &c
	}
	sb := map[types.Address]cdb.Content{}
	for k, v := range b.Sbps {
		sb[k] = *v
	}
	if sym.Choose("side", 2) == 0 {
		err := a.LeftAppend(b)
		sym.Assert((err == nil) == sym.EqBytes(bh[:], ap[:]), "joined-only-at-the-start")
		if err == nil {
			sym.Assert(sym.EqBytes(a.Hash[:], ah[:]) && sym.EqBytes(a.PrevHash[:], bp[:]) && verifSameCounts(a.Sbps, want), "joined-left")
		}
	} else {
		err := a.RightAppend(b)
		sym.Assert((err == nil) == sym.EqBytes(ah[:], bp[:]), "joined-only-at-the-end")
		if err == nil {
			sym.Assert(sym.EqBytes(a.Hash[:], bh[:]) && sym.EqBytes(a.PrevHash[:], ap[:]) && verifSameCounts(a.Sbps, want), "joined-right")
		}
	}
	for k, v := range b.Sbps {
		sym.Assert(*v == sb[k], "the-appended-point-is-unchanged")
	}
	// a rate is a part of a million, or unknown when nothing was planned
	c := &cdb.Content{ExpectedNum: uint32(sym.Choose("planned", 5)), FactualNum: uint32(sym.Byte("made"))}
	sym.Assume(c.FactualNum <= c.ExpectedNum)
	r := c.Rate()
	if c.ExpectedNum == 0 {
		sym.Assert(r == -1, "nothing-planned")
	} else {
		sym.Assert(sym.And(r >= 0, r <= 1000000, sym.Iff(r == 0, c.FactualNum == 0), sym.Iff(r == 1000000, c.FactualNum == c.ExpectedNum)), "rate-range")
	}
	sym.Reach("append")
}
