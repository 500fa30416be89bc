package core

import (
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

func verifUpgrade() {
	upgrade.CleanupUpgradeBox()
	if sym.Choose("upgrades", 2) == 0 {
		upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox())
	} else {
		upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	}
}

// verifTime is any instant in whole seconds from 1970 for about 500 years.
func verifTime(name string) time.Time {
	s := sym.Uint64(name)
	sym.Assume(s < 1<<34)
	return time.Unix(int64(s), 0)
}

func verifSnapshot(name string, n int, withSeed bool, height uint64) *SnapshotBlock {
	b := &SnapshotBlock{Height: height}
	sym.Fill(name+".hash", b.Hash[:])
	sym.Fill(name+".prev", b.PrevHash[:])
	b.PublicKey = sym.Bytes(name+".pub", 32)
	b.Signature = sym.Bytes(name+".sig", 64)
	t := verifTime(name + ".time")
	b.Timestamp = &t
	b.Seed = sym.Uint64(name + ".seed")
	if withSeed {
		h := types.Hash{}
		sym.Fill(name+".seedHash", h[:])
		b.SeedHash = &h
	}
	b.Version = sym.Uint32(name + ".version")
	b.SnapshotContent = make(SnapshotContent)
	var addrs []types.Address
	for i := 0; i < n; i++ {
		var a types.Address
		sym.Fill(name+".addr", a[:])
		for _, o := range addrs {
			sym.Assume(a != o)
		}
		addrs = append(addrs, a)
		hh := &HashHeight{Height: sym.Uint64(name + ".ch")}
		sym.Fill(name+".chash", hh.Hash[:])
		b.SnapshotContent[a] = hh
	}
	return b
}

func verifSameContent(a, b SnapshotContent) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return false
		}
		if !sym.And(v.Height == w.Height, sym.EqBytes(v.Hash[:], w.Hash[:])) {
			return false
		}
	}
	return true
}

// VerifH_SnapshotHashBinds: equal hashes exactly when all committed fields are equal.
func VerifH_SnapshotHashBinds() {
	verifUpgrade()
	n := sym.Choose("n", sym.Param("content", 2))
	h1 := sym.Uint64("h1")
	h2 := sym.Uint64("h2")
	a := verifSnapshot("a", n, true, h1)
	b := verifSnapshot("b", n, true, h2)
	ha, hb := a.ComputeHash(), b.ComputeHash()
	head := sym.And(sym.EqBytes(a.PrevHash[:], b.PrevHash[:]), a.Height == b.Height, a.Timestamp.Unix() == b.Timestamp.Unix(),
		a.Seed == b.Seed, sym.EqBytes(a.SeedHash[:], b.SeedHash[:]))
	leaf1, leaf2 := upgrade.IsLeafUpgrade(h1), upgrade.IsLeafUpgrade(h2)
	sameV := true
	if leaf1 && leaf2 {
		sameV = a.Version == b.Version
	}
	if ha == hb {
		sym.Assert(head, "snapshot-hash-commits-to-header")
		sym.Assert(sameV, "snapshot-hash-commits-to-version")
		sym.Assert(verifSameContent(a.SnapshotContent, b.SnapshotContent), "snapshot-hash-commits-to-content")
		sym.Reach("equal")
	} else {
		if head && sameV {
			sym.Assert(!verifSameContent(a.SnapshotContent, b.SnapshotContent), "snapshot-hash-is-a-function-of-the-block")
			sym.Reach("content-differs")
		}
	}
}

// VerifH_SnapshotHashOrder: the hash does not depend on the iteration order of the content, nor on fields that are not
// committed.
func VerifH_SnapshotHashOrder() {
	verifUpgrade()
	n := sym.Param("content", 2)
	a := verifSnapshot("a", n, sym.Choose("seed", 2) == 1, []uint64{1, 70000000}[sym.Choose("h", 2)])
	h1 := a.ComputeHash()
	sym.MapOrder(true)
	h2 := a.ComputeHash()
	sym.MapOrder(false)
	sym.Assert(h1 == h2, "snapshot-hash-order-independent")
	b := *a
	b.SnapshotContent = make(SnapshotContent)
	for k, v := range a.SnapshotContent {
		b.SnapshotContent[k] = &HashHeight{Height: v.Height, Hash: v.Hash}
	}
	// growing the content changes the hash
	var x types.Address
	sym.Fill("x", x[:])
	if _, ok := b.SnapshotContent[x]; !ok {
		b.SnapshotContent[x] = &HashHeight{Height: sym.Uint64("xh")}
		sym.Assert(b.ComputeHash() != h1, "snapshot-hash-commits-to-content-size")
		sym.Reach("grown")
	}
	if a.SeedHash != nil {
		c := *a
		c.SeedHash = nil
		if !a.SeedHash.IsZero() {
			sym.Assert(c.ComputeHash() != h1, "snapshot-hash-commits-to-seed-hash-presence")
			sym.Reach("seedhash")
		}
	}
}

// VerifH_SnapshotCodec: serialisation keeps every field.
func VerifH_SnapshotCodec() {
	n := sym.Choose("n", sym.Param("content", 2)+1)
	a := verifSnapshot("a", n, sym.Choose("seed", 2) == 1, sym.Uint64("h"))
	ts := time.Unix([]int64{0, 1, 1546275661, 1600000000 + int64(sym.Byte("dt")), 4102444800}[sym.Choose("ts", 5)], 0)
	a.Timestamp = &ts
	buf, err := a.Serialize()
	sym.Assert(err == nil, "snapshot-serialize")
	b := &SnapshotBlock{}
	err = b.Deserialize(buf)
	sym.Assert(err == nil, "snapshot-deserialize")
	sym.Assert(sym.And(a.Hash == b.Hash, a.PrevHash == b.PrevHash, a.Height == b.Height, sym.EqBytes(a.PublicKey, b.PublicKey),
		sym.EqBytes(a.Signature, b.Signature), a.Seed == b.Seed, a.Version == b.Version), "snapshot-codec-fields")
	sym.Assert((a.SeedHash == nil) == (b.SeedHash == nil), "snapshot-codec-seed-hash")
	if a.SeedHash != nil {
		sym.Assert(*a.SeedHash == *b.SeedHash, "snapshot-codec-seed-hash-value")
	}
	sym.Assert(a.Timestamp.Unix() == b.Timestamp.Unix(), "snapshot-codec-time")
	sym.Assert(verifSameContent(a.SnapshotContent, b.SnapshotContent), "snapshot-codec-content")
	sym.Reach("done")
}

// VerifH_SeedHash: the seed commitment binds seed, previous hash and time.
func VerifH_SeedHash() {
	var p1, p2 types.Hash
	sym.Fill("p1", p1[:])
	sym.Fill("p2", p2[:])
	s1, s2 := sym.Uint64("s1"), sym.Uint64("s2")
	t1, t2 := verifTime("t1"), verifTime("t2")
	a, b := ComputeSeedHash(s1, p1, &t1), ComputeSeedHash(s2, p2, &t2)
	sym.Assert(sym.Iff(sym.EqBytes(a[:], b[:]), sym.And(s1 == s2, sym.EqBytes(p1[:], p2[:]), t1.Unix() == t2.Unix())), "seed-hash-binds")
	sym.Reach("done")
}
