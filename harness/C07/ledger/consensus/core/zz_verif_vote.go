package core

import (
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func verifVotes(n int) []*Vote {
	names := []string{"s1", "s2", "s3", "s4", "s5", "s6"}
	var r []*Vote
	for i := 0; i < n; i++ {
		v := &Vote{Name: names[i], Balance: sym.BigInt("balance", 64)}
		v.Addr[0] = byte(i + 1)
		r = append(r, v)
	}
	return r
}

func verifInfo(nodes, randCount, randRank uint8) *GroupInfo {
	info := types.ConsensusGroupInfo{NodeCount: nodes, PerCount: 1, Repeat: 1, Interval: 1, RandCount: randCount, RandRank: randRank, Gid: types.SNAPSHOT_GID}
	return NewGroupInfo(time.Unix(1600000000, 0), info)
}

// verifBetter: v ranks before w.
func verifBetter(v, w *Vote) bool {
	c := v.Balance.Cmp(w.Balance)
	return c > 0 || c == 0 && v.Name < w.Name
}

func verifRank(all []*Vote, v *Vote) int {
	r := 0
	for _, w := range all {
		if w != v && verifBetter(w, v) {
			r++
		}
	}
	return r
}

func verifMembers(all, res []*Vote, info *GroupInfo) {
	want := len(all)
	if want > int(info.NodeCount) {
		want = int(info.NodeCount)
	}
	sym.Assert(len(res) == want, "member-count")
	seen := map[*Vote]bool{}
	for _, v := range res {
		in := false
		for _, w := range all {
			in = in || w == v
		}
		sym.Assert(in, "member-is-a-candidate")
		sym.Assert(!seen[v], "members-distinct")
		seen[v] = true
	}
}

// VerifH_Filter: the elected members are distinct candidates, as many as the group has places, all ranked within the
// range the group draws from.
func VerifH_Filter() {
	n := sym.Choose("candidates", 6)
	nodes := uint8(2)
	if n >= 4 {
		nodes = 3
	}
	rank, randCount, rated := nodes+1, uint8(1), false
	if deep := sym.Param("extra", 1) > 1; n < 5 || deep {
		rated = n >= 4 && sym.Choose("rates", 2) == 1
		if !rated || deep {
			rank += uint8(sym.Choose("rank", 2))
			randCount = uint8(sym.Choose("randCount", 2))
		}
	}
	info := verifInfo(nodes, randCount, rank)
	all := verifVotes(n)
	if (rated || n == 5) && sym.Param("extra", 1) == 1 {
		for i := range all {
			all[i].Balance = big.NewInt(int64(100 - i))
		}
	}
	votes := append([]*Vote{}, all...)
	rates := map[types.Address]int32{}
	for i := 1; i < n; i++ {
		// FilterOrder takes care of the other reading orders
		sym.Assume(all[i-1].Balance.Cmp(all[i].Balance) >= 0)
	}
	if n == 3 {
		for i := range all {
			rates[all[i].Addr] = []int32{0, 900000}[sym.Choose("rate", 2)]
		}
	}
	if rated {
		// two inside the cut below the line, the others above it
		for i := range all {
			rates[all[i].Addr] = []int32{900000, 2, 1, 850000, 900000, 850000}[i]
		}
	}
	hh := &ledger.HashHeight{Height: sym.Uint64("height")}
	res := NewAlgo(info).FilterVotes(NewVoteAlgoContext(votes, hh, rates, NewSeedInfo(sym.Uint64("seed"))))
	verifMembers(all, res, info)
	for _, v := range res {
		sym.Assert(verifRank(all, v) < int(rank), "member-within-rank")
	}
	for i := 1; i < len(res); i++ {
		sym.Assert(verifBetter(res[i-1], res[i]), "members-in-rank-order")
	}
	sym.Reach("done")
}

// VerifH_FilterOrder: two nodes that read the candidates and their success rates in different orders elect the same
// members in the same order.
func VerifH_FilterOrder() {
	n := 3
	info := verifInfo(2, 1, 3)
	all := verifVotes(n)
	perms := [][]int{{0, 1, 2}, {2, 0, 1}, {1, 0, 2}}
	p := perms[sym.Choose("order", len(perms))]
	var votes2 []*Vote
	for _, i := range p {
		c := *all[i]
		votes2 = append(votes2, &c)
	}
	votes := append([]*Vote{}, all...)
	rates := map[types.Address]int32{}
	for i := range all {
		rates[all[i].Addr] = []int32{-1, 0, 900000}[sym.Choose("rate", 3)]
	}
	hh := &ledger.HashHeight{Height: sym.Uint64("height")}
	seed := sym.Uint64("seed")
	a := NewAlgo(info)
	r1 := a.FilterVotes(NewVoteAlgoContext(votes, hh, rates, NewSeedInfo(seed)))
	r2 := a.FilterVotes(NewVoteAlgoContext(votes2, hh, rates, NewSeedInfo(seed)))
	r1 = a.ShuffleVotes(r1, hh, NewSeedInfo(seed))
	r2 = a.ShuffleVotes(r2, hh, NewSeedInfo(seed))
	sym.Assert(len(r1) == len(r2), "same-number")
	for i := range r1 {
		sym.Assert(r1[i].Addr == r2[i].Addr, "election-independent-of-reading-order")
	}
	sym.Reach("done")
}

// VerifH_SuccessRate: without random places, a candidate inside the cut is left out only for a production rate below
// the line, at most two are, the worst first, and only candidates above the line take their places.
func VerifH_SuccessRate() {
	nodes := 2 + sym.Choose("nodes", 2)
	n := nodes + 1 + sym.Choose("more", sym.Param("more", 2))
	info := verifInfo(uint8(nodes), 0, uint8(n))
	all := verifVotes(n)
	for i := 1; i < n; i++ {
		// one reading order is enough here
		sym.Assume(all[i-1].Balance.Cmp(all[i].Balance) > 0)
	}
	rates := map[types.Address]int32{}
	rate := make([]int32, n)
	for i := range all {
		rate[i] = sym.Int32("rate")
		sym.Assume(sym.And(rate[i] >= -1, rate[i] <= 1000000))
		rates[all[i].Addr] = rate[i]
	}
	votes := append([]*Vote{}, all...)
	hh := &ledger.HashHeight{Height: 5}
	res := NewAlgo(info).FilterVotes(NewVoteAlgoContext(votes, hh, rates, NewSeedInfo(7)))
	verifMembers(all, res, info)
	in := make([]bool, n)
	for _, v := range res {
		for i := range all {
			if all[i] == v {
				in[i] = true
			}
		}
	}
	dropped := 0
	for i := 0; i < nodes; i++ {
		if in[i] {
			continue
		}
		dropped++
		sym.Assert(sym.And(rate[i] >= 0, rate[i] < 800000), "left-out-only-below-the-line")
		for j := 0; j < nodes; j++ {
			if in[j] {
				// unknown rates rank last but are never dropped
				sym.Assert(sym.Or(rate[j] < 0, rate[j] >= rate[i]), "worst-left-out-first")
			}
		}
	}
	sym.Assert(dropped <= 2, "at-most-two-left-out")
	for j := nodes; j < n; j++ {
		if in[j] {
			sym.Assert(rate[j] > 800000, "replacement-above-the-line")
			for k := nodes; k < n; k++ {
				if !in[k] {
					sym.Assert(rate[k] <= rate[j], "best-replacement-first")
				}
			}
		}
	}
	if dropped > 0 {
		sym.Reach("dropped")
	}
	sym.Reach("done")
}

// VerifH_Shuffle: shuffling keeps the members and depends only on seed and members.
func VerifH_Shuffle() {
	n := sym.Choose("n", 5)
	info := verifInfo(5, 0, 5)
	all := verifVotes(n)
	hh := &ledger.HashHeight{Height: sym.Uint64("height")}
	seed := sym.Uint64("seed")
	r := NewAlgo(info).ShuffleVotes(all, hh, NewSeedInfo(seed))
	sym.Assert(len(r) == n, "shuffle-keeps-count")
	seen := map[*Vote]bool{}
	for _, v := range r {
		sym.Assert(!seen[v], "shuffle-keeps-members")
		seen[v] = true
	}
	for _, v := range all {
		sym.Assert(seen[v], "shuffle-keeps-every-member")
	}
	r2 := NewAlgo(info).ShuffleVotes(all, hh, NewSeedInfo(seed))
	for i := range r {
		sym.Assert(r[i] == r2[i], "shuffle-deterministic")
	}
	addrs := ConvertVoteToAddress(r)
	sym.Assert(len(addrs) == n, "addresses-keep-count")
	for i := range addrs {
		sym.Assert(addrs[i] == r[i].Addr, "addresses-keep-order")
	}
	sym.Reach("done")
}

type verifState struct {
	regs  []*types.Registration
	votes []*types.VoteInfo
	bal   map[types.Address]*big.Int
	token types.TokenTypeId
	hash  types.Hash
	gid   types.Gid
}

func (s *verifState) GetRegisterList(h types.Hash, gid types.Gid) ([]*types.Registration, error) {
	sym.Assert(h == s.hash && gid == s.gid, "state-read-at-the-election-block")
	return s.regs, nil
}
func (s *verifState) GetVoteList(h types.Hash, gid types.Gid) ([]*types.VoteInfo, error) {
	sym.Assert(h == s.hash && gid == s.gid, "state-read-at-the-election-block")
	return s.votes, nil
}
func (s *verifState) GetConfirmedBalanceList(addrs []types.Address, id types.TokenTypeId, h types.Hash) (map[types.Address]*big.Int, error) {
	sym.Assert(h == s.hash && id == s.token, "balances-read-at-the-election-block")
	r := map[types.Address]*big.Int{}
	for _, a := range addrs {
		if b, ok := s.bal[a]; ok {
			r[a] = b
		}
	}
	return r, nil
}
func (s *verifState) GetSnapshotHeaderBeforeTime(*time.Time) (*ledger.SnapshotBlock, error) {
	return nil, nil
}
func (s *verifState) GetSnapshotBlockByHeight(uint64) (*ledger.SnapshotBlock, error) { return nil, nil }

// VerifH_CountVotes: a candidate's weight is the sum of the confirmed balances of exactly those who voted for it.
func VerifH_CountVotes() {
	s := &verifState{bal: map[types.Address]*big.Int{}}
	s.gid = types.SNAPSHOT_GID
	sym.Fill("hash", s.hash[:])
	s.token[0] = 3
	names := []string{"sp", "spS"}
	for i, n := range names {
		r := &types.Registration{Name: n}
		r.BlockProducingAddress[0] = byte(i + 1)
		s.regs = append(s.regs, r)
	}
	nv := 3
	want := []*big.Int{new(big.Int), new(big.Int)}
	orig := []*big.Int{}
	for i := 0; i < nv; i++ {
		k := sym.Choose("for", 4) // either of them, or a name nobody registered
		nm := []string{"", "", "SP", "pSx"}[k]
		if k < 2 {
			nm = names[k]
		}
		v := &types.VoteInfo{SbpName: nm}
		v.VoteAddr[0] = byte(10 + i)
		s.votes = append(s.votes, v)
		b := sym.BigInt("balance", 64)
		s.bal[v.VoteAddr] = b
		orig = append(orig, new(big.Int).Set(b))
		if k < 2 {
			want[k].Add(want[k], b)
		}
	}
	res, err := CalVotes(types.ConsensusGroupInfo{Gid: s.gid, CountingTokenId: s.token}, s.hash, s)
	sym.Assert(err == nil && len(res) == 2, "every-candidate-counted")
	for i, v := range res {
		sym.Assert(v.Name == names[i] && v.Addr == s.regs[i].BlockProducingAddress, "candidate-identity")
		sym.Assert(sym.EqBig(v.Balance, want[i]), "weight-is-sum-of-votes")
	}
	for i, v := range s.votes {
		sym.Assert(sym.EqBig(s.bal[v.VoteAddr], orig[i]), "balances-not-modified")
	}
	sym.Reach("done")
}
