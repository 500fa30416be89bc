package consensus

import (
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func (c *verifChain) GetContractMeta(types.Address) (*ledger.ContractMeta, error) {
	return &ledger.ContractMeta{Gid: types.DELEGATE_GID}, nil
}

func (c *verifChain) GetLastUnpublishedSeedSnapshotHeader(types.Address, time.Time) (*ledger.SnapshotBlock, error) {
	return nil, nil
}

func verifConsensus(c *verifChain) Consensus {
	cs := NewConsensus(c, nil)
	sym.Assert(cs.Init(nil) == nil, "init")
	return cs
}

func verifSameEvents(a, b []*Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Address != b[i].Address || !a[i].Stime.Equal(b[i].Stime) || !a[i].Etime.Equal(b[i].Etime) || a[i].Gid != b[i].Gid {
			return false
		}
	}
	return true
}

// VerifH_Elections: a node that elected on an abandoned branch elects on the current chain as a fresh node does.
func VerifH_Elections() {
	c := verifNewChain()
	cs := verifConsensus(c)
	g := []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID}[sym.Choose("group", 2)]
	verifHistory(c, sym.Param("before", 2), sym.Param("after", 1), 1, func() {
		if sym.Choose("asked", 2) == 1 {
			p := c.period[len(c.blocks)-1] + sym.Choose("period asked", 3)
			_, _, err := cs.ReadByIndex(g, uint64(p))
			sym.Assert(err == nil, "election-before")
		}
	})
	fresh := verifConsensus(c)
	last := c.period[len(c.blocks)-1]
	p := last + sym.Choose("period", 3)
	got, _, err := cs.ReadByIndex(g, uint64(p))
	sym.Assert(err == nil && len(got) > 0, "election")
	want, _, err := fresh.ReadByIndex(g, uint64(p))
	sym.Assert(err == nil && verifSameEvents(got, want), "election-depends-only-on-the-current-chain")
	if g == types.DELEGATE_GID && p == last {
		// contract blocks are accepted from exactly the elected
		var all []*ledger.AccountBlock
		for i := range verifKeys {
			b := &ledger.AccountBlock{AccountAddress: types.AddressAsset, PublicKey: verifKeys[i], Height: uint64(i)}
			all = append(all, b)
			in := false
			for _, e := range want {
				in = in || e.Address == verifAddr(i)
			}
			ok, err := cs.VerifyAccountProducer(b)
			sym.Assert(err == nil && ok == in, "contract-block-accepted-from-the-elected")
			bad, err := cs.VerifyABsProducer(map[types.Gid][]*ledger.AccountBlock{g: {b}})
			sym.Assert(err == nil && (len(bad) == 0) == in, "contract-blocks-refused-from-others")
		}
		bad, err := cs.VerifyABsProducer(map[types.Gid][]*ledger.AccountBlock{g: all})
		sym.Assert(err == nil && len(bad) == 1, "exactly-the-others-are-refused")
	}
	sym.Reach("elections")
}
