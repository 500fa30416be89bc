package core

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// verifBlock builds an account block with every field symbolic.
func verifBlock(name string, bt byte, dataLen int, withLog bool, sends int, bits int) *AccountBlock {
	b := &AccountBlock{BlockType: bt}
	sym.Fill(name+".prev", b.PrevHash[:])
	b.Height = sym.Uint64(name + ".height")
	sym.Fill(name+".addr", b.AccountAddress[:])
	b.PublicKey = sym.Bytes(name+".pub", 32)
	sym.Fill(name+".to", b.ToAddress[:])
	b.Amount = sym.BigInt(name+".amount", bits)
	sym.Fill(name+".token", b.TokenId[:])
	sym.Fill(name+".from", b.FromBlockHash[:])
	b.Data = sym.Bytes(name+".data", dataLen)
	b.Quota = sym.Uint64(name + ".quota")
	b.QuotaUsed = sym.Uint64(name + ".quotaUsed")
	b.Fee = sym.BigInt(name+".fee", bits)
	if withLog {
		h := types.Hash{}
		sym.Fill(name+".log", h[:])
		b.LogHash = &h
	}
	b.Difficulty = sym.BigInt(name+".diff", 256)
	b.Nonce = sym.Bytes(name+".nonce", 8)
	for i := 0; i < sends; i++ {
		s := &AccountBlock{BlockType: BlockTypeSendCall, Amount: new(big.Int), Fee: new(big.Int)}
		sym.Fill(name+".sendHash", s.Hash[:])
		b.SendBlockList = append(b.SendBlockList, s)
	}
	b.Signature = sym.Bytes(name+".sig", 64)
	return b
}

func verifIsType(t byte, send bool) bool {
	if send {
		return sym.Or(t == BlockTypeSendCreate, t == BlockTypeSendCall, t == BlockTypeSendReward, t == BlockTypeSendRefund)
	}
	return sym.Or(t == BlockTypeReceive, t == BlockTypeReceiveError, t == BlockTypeGenesisReceive)
}

func verifSameSends(a, b []*AccountBlock) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.EqBytes(a[i].Hash[:], b[i].Hash[:]))
	}
	return r
}

// VerifH_AccountHashBinds: two blocks with the same optional parts hash equally exactly when every committed field is
// equal.
func VerifH_AccountHashBinds() {
	send := sym.Choose("send", 2) == 0
	t1, t2 := sym.Byte("t1"), sym.Byte("t2")
	sym.Assume(sym.And(verifIsType(t1, send), verifIsType(t2, send)))
	dl, log, ns, bits := 3, false, 0, 256
	if sym.Choose("wide", 2) == 0 {
		bits = 248
		dl = []int{0, 4, 37}[sym.Choose("dlen", 3)]
		log = sym.Choose("log", 2) == 1
		ns = sym.Choose("sends", sym.Param("sends", 3))
	}
	a := verifBlock("a", t1, dl, log, ns, bits)
	b := verifBlock("b", t2, dl, log, ns, bits)
	same := sym.And(a.BlockType == b.BlockType, sym.EqBytes(a.PrevHash[:], b.PrevHash[:]), a.Height == b.Height,
		sym.EqBytes(a.AccountAddress[:], b.AccountAddress[:]), sym.EqBytes(a.Data, b.Data), sym.EqBig(a.Fee, b.Fee),
		sym.EqBytes(a.Nonce, b.Nonce), verifSameSends(a.SendBlockList, b.SendBlockList))
	if log {
		same = sym.And(same, sym.EqBytes(a.LogHash[:], b.LogHash[:]))
	}
	if send {
		same = sym.And(same, sym.EqBytes(a.ToAddress[:], b.ToAddress[:]), sym.EqBig(a.Amount, b.Amount), sym.EqBytes(a.TokenId[:], b.TokenId[:]))
	} else {
		same = sym.And(same, sym.EqBytes(a.FromBlockHash[:], b.FromBlockHash[:]))
	}
	ha, hb := a.ComputeHash(), b.ComputeHash()
	eq := sym.EqBytes(ha[:], hb[:])
	sym.Assert(sym.Implies(eq, same), "hash-commits-to-every-field")
	sym.Assert(sym.Implies(same, eq), "hash-depends-only-on-committed-fields")
	sym.Reach("done")
}

// VerifH_AccountHashOptional: adding or removing one optional part (data, log hash, an inner send, the sign of the
// direction) changes the hash.
func VerifH_AccountHashOptional() {
	dl := []int{0, 5}[sym.Choose("dlen", 2)]
	log := sym.Choose("log", 2) == 1
	ns := sym.Choose("sends", 2)
	a := verifBlock("a", BlockTypeSendCall, dl, log, ns, 248)
	b := *a
	switch sym.Choose("change", 4) {
	case 0: // data present / absent / other length
		n := []int{0, 1, 4, 5, 6}[sym.Choose("newlen", 5)]
		if n == dl {
			return
		}
		b.Data = sym.Bytes("newdata", n)
	case 1:
		if log {
			b.LogHash = nil
		} else {
			h := types.Hash{}
			sym.Fill("newlog", h[:])
			b.LogHash = &h
		}
	case 2:
		s := &AccountBlock{}
		sym.Fill("newsend", s.Hash[:])
		b.SendBlockList = append(append([]*AccountBlock{}, a.SendBlockList...), s)
	case 3:
		b.BlockType = BlockTypeReceive
	}
	ha, hb := a.ComputeHash(), b.ComputeHash()
	sym.Assert(ha != hb, "optional-part-committed")
	sym.Reach("done")
}

// VerifH_SendHashBinds: the hash of a block sent from within a receive also commits to the host block's position and
// the index in it.
func VerifH_SendHashBinds() {
	dl := []int{0, 3}[sym.Choose("dlen", 2)]
	a := verifBlock("a", BlockTypeSendCall, dl, false, 0, 248)
	b := verifBlock("b", BlockTypeSendCall, dl, false, 0, 248)
	h1, h2 := &AccountBlock{}, &AccountBlock{}
	sym.Fill("h1", h1.PrevHash[:])
	sym.Fill("h2", h2.PrevHash[:])
	h1.Height, h2.Height = sym.Uint64("g1"), sym.Uint64("g2")
	i1, i2 := sym.Byte("i1"), sym.Byte("i2")
	same := sym.And(sym.EqBytes(a.PrevHash[:], b.PrevHash[:]), a.Height == b.Height,
		sym.EqBytes(a.AccountAddress[:], b.AccountAddress[:]), sym.EqBytes(a.Data, b.Data), sym.EqBig(a.Fee, b.Fee),
		sym.EqBytes(a.Nonce, b.Nonce), sym.EqBytes(a.ToAddress[:], b.ToAddress[:]), sym.EqBig(a.Amount, b.Amount),
		sym.EqBytes(a.TokenId[:], b.TokenId[:]),
		sym.EqBytes(h1.PrevHash[:], h2.PrevHash[:]), h1.Height == h2.Height, i1 == i2)
	ha, hb := a.ComputeSendHash(h1, i1), b.ComputeSendHash(h2, i2)
	eq := sym.EqBytes(ha[:], hb[:])
	sym.Assert(sym.Implies(eq, same), "send-hash-commits-to-every-field")
	sym.Assert(sym.Implies(same, eq), "send-hash-depends-only-on-committed-fields")
	hc := a.ComputeHash()
	sym.Assert(ha != hc, "send-hash-differs-from-plain-hash")
	sym.Reach("done")
}
