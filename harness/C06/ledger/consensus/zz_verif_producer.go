package consensus

import (
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// VerifH_ProducerAccepted: a snapshot producer is accepted exactly at the start instants of its own slots; a contract
// group accepts a producer exactly when it is elected.
func VerifH_ProducerAccepted() {
	info := core.VerifGroupInfo(2 + sym.Choose("group", 2))
	idx := core.VerifIndex(info)
	n := 1 + sym.Choose("members", int(info.NodeCount))
	members := make([]types.Address, n)
	for i := range members {
		sym.Fill("member", members[i][:])
	}
	result := genElectionResult(info, idx, members)
	s, e := info.Index2Time(idx)
	sym.Assert(sym.And(result.Index == idx, result.STime.Equal(s), result.ETime.Equal(e)), "election-result-is-of-its-period")
	var who types.Address
	sym.Fill("who", who[:])
	t := info.GenesisTime.Add(time.Duration(sym.Uint32("t")) * time.Second)
	want := false
	elected := false
	for r := int64(0); r < int64(info.Repeat); r++ {
		for i := range members {
			for c := int64(0); c < info.PerCount; c++ {
				at := s.Add(time.Duration(info.Interval*(r*info.PerCount*int64(info.NodeCount)+int64(i)*info.PerCount+c)) * time.Second)
				want = sym.Or(want, sym.And(sym.EqBytes(who[:], members[i][:]), at.Equal(t)))
			}
		}
	}
	for i := range members {
		elected = sym.Or(elected, sym.EqBytes(who[:], members[i][:]))
	}
	sn := &snapshotCs{GroupInfo: *info}
	sym.Assert(sn.verifyProducer(t, who, result) == want, "snapshot-producer-accepted-iff-its-slot")
	co := &contractDposCs{GroupInfo: *info}
	co.CheckLevel = 1
	sym.Assert(co.verifyProducer(who, result) == elected, "contract-producer-accepted-iff-elected")
	sym.Assert(!sn.verifyProducer(t, who, nil), "no-election-no-producer")
	sym.Reach("done")
}

// VerifH_ProofTime: the members of a period are computed from state that is fixed before the period starts.
func VerifH_ProofTime() {
	info := core.VerifGroupInfo(sym.Choose("group", core.VerifGroupCount()))
	idx := core.VerifIndex(info)
	s, _ := info.Index2Time(idx)
	sn := &snapshotCs{GroupInfo: *info}
	t := sn.GenProofTime(idx)
	if idx >= 2 {
		prev, _ := info.Index2Time(idx - 1)
		sym.Assert(t.Equal(prev), "snapshot-election-uses-state-a-full-period-old")
		sym.Reach("snapshot")
	} else {
		sym.Assert(t.Equal(info.GenesisTime.Add(time.Second)), "first-elections-use-genesis")
	}
	co := &contractDposCs{GroupInfo: *info}
	c := co.GenProofTime(idx)
	if s.Sub(info.GenesisTime) >= 75*time.Second {
		sym.Assert(s.Sub(c) == 75*time.Second, "contract-election-uses-state-75s-old")
		sym.Reach("contract")
	} else {
		sym.Assert(c.Equal(info.GenesisTime.Add(time.Second)), "first-contract-elections-use-genesis")
	}
}
