package core

import (
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

type verifGroup struct {
	nodes  uint8
	per    int64
	repeat uint16
	itv    int64
}

// VerifGroups are the production shapes of consensus groups (snapshot group, delegated group) and small ones that
// exercise every combination of more than one member, slot and round.
var verifGroups = []verifGroup{{25, 3, 1, 1}, {25, 1, 48, 3}, {3, 2, 2, 1}, {2, 1, 3, 7}, {1, 1, 1, 1}, {5, 3, 1, 2}}

func VerifGroupInfo(k int) *GroupInfo {
	g := verifGroups[k]
	info := types.ConsensusGroupInfo{NodeCount: g.nodes, PerCount: g.per, Repeat: g.repeat, Interval: g.itv}
	return NewGroupInfo(time.Unix(int64(sym.Uint32("genesis")), 0), info)
}

// VerifIndex is any period within the first decades of the chain.
func VerifIndex(info *GroupInfo) uint64 {
	if info.PlanInterval > 100 {
		return uint64(sym.Uint32("index") >> 14)
	}
	return uint64(sym.Uint32("index") >> 8)
}

func VerifGroupCount() int { return len(verifGroups) }

// VerifH_SlotsTile: periods tile time from genesis on, and the period of an instant is the one that contains it.
func VerifH_SlotsTile() {
	info := VerifGroupInfo(sym.Choose("group", len(verifGroups)))
	length := int64(info.PlanInterval)
	idx := VerifIndex(info)
	s, e := info.Index2Time(idx)
	s2, _ := info.Index2Time(idx + 1)
	sym.Assert(e.Equal(s2), "periods-contiguous")
	sym.Assert(e.Sub(s) == time.Duration(length)*time.Second, "period-length")
	g0, _ := info.Index2Time(0)
	sym.Assert(g0.Equal(info.GenesisTime), "first-period-starts-at-genesis")
	off := int64(sym.Uint16("offset"))
	sym.Assume(off < length)
	t := s.Add(time.Duration(off) * time.Second)
	sym.Assert(info.Time2Index(t) == idx, "instant-belongs-to-its-period")
	sym.Reach("done")
}

// VerifH_Plan: the plan of a period gives every member the same number of disjoint slots, in order, inside the period.
func VerifH_Plan() {
	lo := 2
	if sym.Param("big", 0) == 1 {
		lo = 0
	}
	info := VerifGroupInfo(lo + sym.Choose("group", len(verifGroups)-lo))
	idx := VerifIndex(info)
	n := sym.Choose("members", int(info.NodeCount)+2)
	members := make([]types.Address, n)
	for i := range members {
		members[i][0] = byte(i + 1)
		members[i][5] = sym.Byte("member")
	}
	plans := info.GenPlanByAddress(idx, members)
	if n > int(info.NodeCount) {
		sym.Assert(len(plans) == 0, "too-many-members-no-plan")
		sym.Reach("toomany")
		return
	}
	s, e := info.Index2Time(idx)
	count := make(map[types.Address]int)
	prev := s
	round := 0
	for k, p := range plans {
		r := k / (n * int(info.PerCount)) // round of this slot
		if r != round {
			round = r
		}
		sym.Assert(!p.STime.Before(prev), "slots-do-not-overlap")
		sym.Assert(p.ETime.Sub(p.STime) == time.Duration(info.Interval)*time.Second, "slot-length")
		sym.Assert(!p.ETime.After(e), "slot-inside-period")
		// the slot of a member is at its fixed offset in the round
		at := s.Add(time.Duration(info.Interval*(int64(r)*info.PerCount*int64(info.NodeCount)+int64(k%(n*int(info.PerCount))))) * time.Second)
		sym.Assert(p.STime.Equal(at), "slot-at-its-place")
		sym.Assert(p.Member == members[(k/int(info.PerCount))%n], "slot-owner")
		sym.Assert(info.Time2Index(p.STime) == idx, "slot-belongs-to-period")
		count[p.Member]++
		prev = p.ETime
	}
	for _, m := range members {
		sym.Assert(count[m] == int(info.PerCount)*int(info.Repeat), "equal-share-of-slots")
	}
	if n == int(info.NodeCount) && n > 0 {
		sym.Assert(prev.Equal(e), "full-plan-covers-period")
	}
	sym.Reach("done")
}
