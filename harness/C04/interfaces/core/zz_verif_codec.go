package core

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// verifEqBlock compares every field that belongs to blocks of the block's type.
func verifEqBlock(a, b *AccountBlock, wire bool) bool {
	eqBig := func(x, y *big.Int) bool {
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return sym.EqBig(x, y)
	}
	if (a.LogHash == nil) != (b.LogHash == nil) || len(a.SendBlockList) != len(b.SendBlockList) {
		return false
	}
	r := sym.And(a.BlockType == b.BlockType, sym.EqBytes(a.Hash[:], b.Hash[:]), a.Height == b.Height,
		sym.EqBytes(a.AccountAddress[:], b.AccountAddress[:]), sym.EqBytes(a.PublicKey, b.PublicKey),
		sym.EqBytes(a.Data, b.Data), a.Quota == b.Quota, a.QuotaUsed == b.QuotaUsed, eqBig(a.Fee, b.Fee),
		sym.EqBytes(a.Nonce, b.Nonce), sym.EqBytes(a.Signature, b.Signature))
	if a.LogHash != nil {
		r = sym.And(r, sym.EqBytes(a.LogHash[:], b.LogHash[:]))
	}
	prev := sym.EqBytes(a.PrevHash[:], b.PrevHash[:])
	to := sym.EqBytes(a.ToAddress[:], b.ToAddress[:])
	from := sym.EqBytes(a.FromBlockHash[:], b.FromBlockHash[:])
	tok := sym.EqBytes(a.TokenId[:], b.TokenId[:])
	if !wire {
		r = sym.And(r, prev, to, from, tok, eqBig(a.Amount, b.Amount), eqBig(a.Difficulty, b.Difficulty))
	} else {
		r = sym.And(r, sym.Implies(a.Height > 1, prev))
		if a.IsSendBlock() {
			r = sym.And(r, to)
		} else {
			r = sym.And(r, from)
		}
		if a.IsSendBlock() || a.BlockType == BlockTypeGenesisReceive {
			r = sym.And(r, tok, eqBig(a.Amount, b.Amount))
		}
		d1, d2 := a.Difficulty, b.Difficulty
		if d1 == nil {
			d1 = new(big.Int)
		}
		if d2 == nil {
			d2 = new(big.Int)
		}
		r = sym.And(r, eqBig(d1, d2))
	}
	for i := range a.SendBlockList {
		r = sym.And(r, verifEqBlock(a.SendBlockList[i], b.SendBlockList[i], wire))
	}
	return r
}

func verifAnyBlock() *AccountBlock {
	types := []byte{BlockTypeSendCreate, BlockTypeSendCall, BlockTypeSendReward, BlockTypeReceive, BlockTypeReceiveError, BlockTypeSendRefund, BlockTypeGenesisReceive}
	b := verifBlock("a", types[sym.Choose("type", 7)], 5*sym.Choose("data", 2), sym.Choose("log", 2) == 1, 0, 256)
	sym.Fill("hash", b.Hash[:])
	if b.IsReceiveBlock() {
		n := sym.Choose("sends", 3)
		for i := 0; i < n; i++ {
			c := verifBlock("s", BlockTypeSendCall, i, false, 0, 128)
			if i == 0 {
				c.Fee, c.Difficulty = new(big.Int), nil
			} else {
				c.Amount = new(big.Int)
			}
			sym.Fill("shash", c.Hash[:])
			b.SendBlockList = append(b.SendBlockList, c)
		}
	}
	if sym.Choose("small", 2) == 1 {
		b.Difficulty = nil
		b.Nonce = nil
		b.Signature = nil
	}
	return b
}

// VerifH_AccountCodec: serialising and reading back keeps every field of the block's type, at any nesting.
func VerifH_AccountCodec() {
	a := verifAnyBlock()
	buf, err := a.Serialize()
	sym.Assert(err == nil, "account-serialize")
	b := &AccountBlock{}
	err = b.Deserialize(buf)
	sym.Assert(err == nil, "account-deserialize")
	sym.Assert(verifEqBlock(a, b, true), "account-codec-fields")
	sym.Reach("done")
}

// VerifH_AccountCopy: a copy is equal, and changing the copy in place leaves the original alone.
func VerifH_AccountCopy() {
	a := verifAnyBlock()
	c := a.Copy()
	d := a.Copy()
	sym.Assert(verifEqBlock(a, c, false), "copy-equal")
	scribble := func(x *AccountBlock) {
		x.Amount.Add(x.Amount, big.NewInt(1))
		x.Fee.Add(x.Fee, big.NewInt(1))
		if x.Difficulty != nil {
			x.Difficulty.Add(x.Difficulty, big.NewInt(1))
		}
		for i := range x.Data {
			x.Data[i]++
		}
		for i := range x.Nonce {
			x.Nonce[i]++
		}
		for i := range x.Signature {
			x.Signature[i]++
		}
		if x.LogHash != nil {
			x.LogHash[3]++
		}
		x.Hash[0]++
		x.PrevHash[0]++
		x.Height++
		x.Quota++
		x.QuotaUsed++
	}
	scribble(c)
	for _, s := range c.SendBlockList {
		scribble(s)
	}
	sym.Assert(verifEqBlock(a, d, false), "copy-independent")
	sym.Reach("done")
}

// VerifH_Records: contract metadata, hash/height pairs and log lists survive storage.
func VerifH_Records() {
	switch sym.Choose("kind", 4) {
	case 0:
		m := &ContractMeta{SendConfirmedTimes: sym.Byte("sc"), QuotaRatio: sym.Byte("qr"), SeedConfirmedTimes: sym.Byte("sd")}
		sym.Fill("gid", m.Gid[:])
		sym.Fill("hash", m.CreateBlockHash[:])
		buf, err := m.Serialize()
		sym.Assert(err == nil, "meta-serialize")
		n := &ContractMeta{}
		err = n.Deserialize(buf)
		sym.Assert(err == nil && *n == *m, "meta-roundtrip")
		// records written before the seed count existed
		o := &ContractMeta{}
		err = o.Deserialize(buf[:len(buf)-1])
		sym.Assert(err == nil && o.SeedConfirmedTimes == m.SendConfirmedTimes && o.Gid == m.Gid && o.QuotaRatio == m.QuotaRatio && o.CreateBlockHash == m.CreateBlockHash, "meta-old-format")
		sym.Reach("meta")
	case 1:
		h := &HashHeight{Height: sym.Uint64("h")}
		sym.Fill("hh", h.Hash[:])
		buf, err := h.Serialize()
		sym.Assert(err == nil, "hashheight-serialize")
		g := &HashHeight{}
		err = g.Deserialize(buf)
		sym.Assert(err == nil && *g == *h, "hashheight-roundtrip")
		sym.Reach("hashheight")
	case 2:
		l := verifLogs("l")
		buf, err := l.Serialize()
		sym.Assert(err == nil, "logs-serialize")
		var k VmLogList
		err = k.Deserialize(buf)
		sym.Assert(err == nil, "logs-deserialize")
		sym.Assert(verifSameLogs(l, k), "logs-roundtrip")
		sym.Reach("logs")
	case 3:
		upgrade.CleanupUpgradeBox()
		upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox())
		l := verifLogs("l")
		var a1, a2 types.Address
		var p1, p2 types.Hash
		sym.Fill("a1", a1[:])
		sym.Fill("a2", a2[:])
		sym.Fill("p1", p1[:])
		sym.Fill("p2", p2[:])
		h1, h2 := l.Hash(10, a1, p1), l.Hash(10, a2, p2)
		if len(l) == 0 {
			sym.Assert(h1 == nil && h2 == nil, "no-logs-no-hash")
			return
		}
		sym.Assert(sym.Iff(*h1 == *h2, sym.And(a1 == a2, p1 == p2)), "log-hash-binds-position")
		k := verifSameShape(l, "k")
		h3 := k.Hash(10, a1, p1)
		sym.Assert(sym.Iff(*h1 == *h3, verifSameLogs(l, k)), "log-hash-binds-content")
		sym.Reach("loghash")
	}
}

func verifLogs(name string) VmLogList {
	var l VmLogList
	n := sym.Choose(name+".n", 3)
	for i := 0; i < n; i++ {
		g := &VmLog{Data: sym.Bytes(name+".data", 3*sym.Choose(name+".dl", 2))}
		nt := sym.Choose(name+".t", 3)
		for j := 0; j < nt; j++ {
			var h types.Hash
			sym.Fill(name+".topic", h[:])
			g.Topics = append(g.Topics, h)
		}
		l = append(l, g)
	}
	return l
}

func verifSameShape(l VmLogList, name string) VmLogList {
	var k VmLogList
	for _, g := range l {
		x := &VmLog{Data: sym.Bytes(name+".data", len(g.Data))}
		for range g.Topics {
			var h types.Hash
			sym.Fill(name+".topic", h[:])
			x.Topics = append(x.Topics, h)
		}
		k = append(k, x)
	}
	return k
}

func verifSameLogs(l, k VmLogList) bool {
	if len(l) != len(k) {
		return false
	}
	r := true
	for i := range l {
		if len(l[i].Topics) != len(k[i].Topics) {
			return false
		}
		r = sym.And(r, sym.EqBytes(l[i].Data, k[i].Data))
		for j := range l[i].Topics {
			r = sym.And(r, sym.EqBytes(l[i].Topics[j][:], k[i].Topics[j][:]))
		}
	}
	return r
}
