package vm

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/fakechain"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

var (
	verifUser     = types.Address{0x11}
	verifUser2    = types.Address{0x22}
	verifContract = types.Address{0x33, 20: 1}
	verifPeer     = types.Address{0x44, 20: 1}
	verifToken    = types.TokenTypeId{0x77}
	verifPrev     = types.Hash{0x99}
	verifFrom     = types.Hash{0x98}
)

const verifLimit = 1000000 // most quota a block can use

var verifHeights = []uint64{1000000000, 1}

type verifWorld struct {
	*fakechain.Chain
	h      uint64
	table  *util.QuotaTable
	before map[types.TokenTypeId]*big.Int
	total  uint64
	add    uint64
}

// verifNewWorld has one account with any balances and any grant of quota.
func verifNewWorld(addr types.Address, eras int) *verifWorld {
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	InitVMConfig(false, false, false, false, "")
	w := &verifWorld{h: verifHeights[sym.Choose("era", eras)]}
	w.Chain = fakechain.New(w.h, 1600000000)
	w.table = util.QuotaTableByHeight(w.h)
	w.before = map[types.TokenTypeId]*big.Int{ledger.ViteTokenId: sym.BigInt("vite balance", sym.Param("bits", 96)), verifToken: sym.BigInt("token balance", sym.Param("bits", 96))}
	a := w.Account(addr)
	for _, t := range []types.TokenTypeId{ledger.ViteTokenId, verifToken} {
		a.SetBalance(t, w.before[t])
	}
	w.Account(verifPeer).Meta = &ledger.ContractMeta{QuotaRatio: 25}
	return w
}

func (w *verifWorld) grant(total, add uint64) {
	w.total, w.add = total, add
	quota.VerifSetQuota(total, add)
}

// symGrant grants any amount up to 2^17 above the base, some of it from proof of work.
func (w *verifWorld) symGrant() {
	total := uint64(sym.Uint32("quota"))
	sym.Assume(total < 200000)
	add := uint64(sym.Uint32("quota from work"))
	sym.Assume(add <= total)
	w.grant(total, add)
}

func (w *verifWorld) expectQuota(b *ledger.AccountBlock, used uint64) {
	stake := uint64(0)
	if used > w.add {
		stake = used - w.add
	}
	sym.Assert(b.QuotaUsed == used, "quota-used-is-the-cost")
	sym.Assert(b.Quota == stake, "stake-quota-used-is-the-cost-beyond-work")
}

func verifTokenOf(name string) types.TokenTypeId {
	if sym.Choose(name, 2) == 0 {
		return ledger.ViteTokenId
	}
	return verifToken
}

// verifBalance is the balance after the block.
func verifBalance(db interfaces.VmDb, t types.TokenTypeId) *big.Int {
	b, err := db.GetBalance(&t)
	if err != nil {
		panic(err)
	}
	return b
}

func verifNothingElse(db interfaces.VmDb) {
	sym.Assert(len(db.GetUnsavedStorage()) == 0 && len(db.GetLogList()) == 0 && len(db.GetUnsavedContractCode()) == 0, "no-other-effects")
}

// VerifH_Send: a transfer takes exactly its amount from the sender, if the sender can pay and has the quota.
func VerifH_Send() {
	w := verifNewWorld(verifUser, 2)
	w.symGrant()
	to := []types.Address{verifUser2, verifPeer, verifContract}[sym.Choose("to", 3)]
	t := verifTokenOf("token")
	amount := sym.BigInt("amount", sym.Param("bits", 96))
	data := sym.Bytes("data", []int{0, 3}[sym.Choose("data", 2)])
	block := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Height: 2, PrevHash: verifPrev, AccountAddress: verifUser, ToAddress: to,
		Amount: amount, TokenId: t, Data: data, Fee: big.NewInt(33), Difficulty: nil}
	orig := new(big.Int).Set(amount)
	cost := w.table.TxQuota + w.table.TxDataQuota*uint64(len(data))
	if to == verifPeer {
		cost = cost * 25 / 10
	}
	db := w.DB(verifUser)
	r, isRetry, err := NewVM(nil).RunV2(db, block, nil, nil)
	ok := sym.And(to != verifContract, cost <= w.total, orig.Cmp(w.before[t]) <= 0)
	sym.Assert(sym.Iff(err == nil, ok), "accepted-exactly-when-payable")
	sym.Assert(!isRetry && (r != nil) == (err == nil), "result-or-error")
	sym.Assert(block.Amount.Cmp(orig) == 0 && block.Fee.Cmp(big.NewInt(33)) == 0 && block.Quota == 0, "input-block-untouched")
	if err != nil {
		sym.Reach("send-refused")
		return
	}
	for tok, b := range w.before {
		want := new(big.Int).Set(b)
		if tok == t {
			want.Sub(want, orig)
		}
		sym.Assert(verifBalance(r.VmDb, tok).Cmp(want) == 0, "sender-loses-exactly-the-amount")
	}
	b := r.AccountBlock
	sym.Assert(sym.And(b.Amount.Cmp(orig) == 0, b.Fee.Sign() == 0, b.TokenId == t, b.ToAddress == to, sym.EqBytes(b.Data, data), len(b.SendBlockList) == 0), "result-is-the-transfer")
	w.expectQuota(b, cost)
	verifNothingElse(r.VmDb)
	sym.Assert(len(r.VmDb.GetUnsavedContractMeta()) == 0, "no-other-effects")
	sym.Reach("sent")
}

// VerifH_Create: a creation request is accepted exactly with valid parameters, costs ten VITE and records them.
func VerifH_Create() {
	w := verifNewWorld(verifUser, 2)
	w.grant(100000, 0)
	seed := w.h > 1
	t := verifTokenOf("token")
	amount := sym.BigInt("amount", sym.Param("bits", 96))
	gid := types.SNAPSHOT_GID
	if g := sym.Choose("gid", 2); g == 0 {
		gid = types.DELEGATE_GID
	}
	kind, confirm, seeds, ratio := sym.Byte("type"), sym.Byte("confirm times"), sym.Byte("seed times"), sym.Byte("multiplier")
	code := [][]byte{{}, {byte(ADD)}, {byte(TIMESTAMP)}, {byte(RANDOM)}, {byte(PUSH1), byte(RANDOM)}, {byte(ADD), byte(DELEGATECALL)}}[sym.Choose("code", 6)]
	needSb := len(code) > 0 && (code[0] == byte(TIMESTAMP) || len(code) > 1 && code[1] == byte(DELEGATECALL))
	needSeed := len(code) > 0 && code[0] == byte(RANDOM)
	data := append(append([]byte{}, gid.Bytes()...), kind, confirm, seeds, ratio)
	if !seed {
		data = append(append([]byte{}, gid.Bytes()...), kind, confirm, ratio)
	}
	data = append(data, code...)
	if n := sym.Choose("truncated", 2); n == 1 {
		data = data[:len(data)-1-len(code)]
	}
	short := len(data) < 13 || seed && len(data) < 14
	block := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCreate, Height: 2, PrevHash: verifPrev, AccountAddress: verifUser, Amount: amount, TokenId: t, Data: data, Fee: big.NewInt(0)}
	orig := new(big.Int).Set(amount)
	db := w.DB(verifUser)
	r, isRetry, err := NewVM(nil).RunV2(db, block, nil, nil)
	fee := new(big.Int).Mul(big.NewInt(10), big.NewInt(1000000000000000000))
	viteSpent, tokenSpent := new(big.Int).Set(fee), new(big.Int)
	if t == ledger.ViteTokenId {
		viteSpent.Add(viteSpent, orig)
	} else {
		tokenSpent = orig
	}
	ok := !short && gid != types.SNAPSHOT_GID
	ok = sym.And(ok, kind == 1, confirm <= 75, ratio >= 10, ratio <= 100)
	if seed {
		ok = sym.And(ok, seeds <= 75, seeds <= confirm, sym.Implies(needSb, confirm > 0), sym.Implies(needSeed, seeds > 0))
	} else {
		ok = sym.And(ok, sym.Implies(needSb, confirm > 0))
	}
	ok = sym.And(ok, viteSpent.Cmp(w.before[ledger.ViteTokenId]) <= 0, tokenSpent.Cmp(w.before[verifToken]) <= 0)
	sym.Assert(sym.Iff(err == nil, ok), "accepted-exactly-when-valid-and-payable")
	sym.Assert(!isRetry && (r != nil) == (err == nil), "result-or-error")
	if err != nil {
		sym.Reach("create-refused")
		return
	}
	sym.Assert(verifBalance(r.VmDb, ledger.ViteTokenId).Cmp(new(big.Int).Sub(w.before[ledger.ViteTokenId], viteSpent)) == 0, "sender-pays-amount-and-fee")
	sym.Assert(verifBalance(r.VmDb, verifToken).Cmp(new(big.Int).Sub(w.before[verifToken], tokenSpent)) == 0, "sender-pays-amount-and-fee")
	b := r.AccountBlock
	sym.Assert(b.Fee.Cmp(fee) == 0 && b.Amount.Cmp(orig) == 0, "block-states-amount-and-fee")
	sym.Assert(b.ToAddress == util.NewContractAddress(verifUser, 2, verifPrev) && types.IsContractAddr(b.ToAddress), "the-new-address-follows-from-the-position")
	m := r.VmDb.GetUnsavedContractMeta()
	sym.Assert(len(m) == 1 && m[b.ToAddress] != nil, "one-contract-is-recorded")
	mm := m[b.ToAddress]
	wantSeeds := confirm
	if seed {
		wantSeeds = seeds
	}
	sym.Assert(sym.And(mm.Gid == gid, mm.SendConfirmedTimes == confirm, mm.SeedConfirmedTimes == wantSeeds, mm.QuotaRatio == ratio), "the-contract-record-is-what-was-requested")
	w.expectQuota(b, w.table.CreateTxRequestQuota+w.table.TxDataQuota*uint64(len(data)))
	verifNothingElse(r.VmDb)
	sym.Reach("created")
}

// VerifH_ReceiveUser: a user's receive adds exactly the sent amount.
func VerifH_ReceiveUser() {
	w := verifNewWorld(verifUser, 2)
	w.symGrant()
	t := verifTokenOf("token")
	amount := sym.BigInt("amount", sym.Param("bits", 96))
	send := &ledger.AccountBlock{Hash: verifFrom, BlockType: []byte{ledger.BlockTypeSendCall, ledger.BlockTypeSendReward, ledger.BlockTypeSendRefund}[sym.Choose("kind", 3)],
		AccountAddress: verifPeer, ToAddress: verifUser, Amount: amount, TokenId: t, Fee: big.NewInt(5), Data: []byte{1, 2, 3}}
	deep := false
	if send.BlockType == ledger.BlockTypeSendCall {
		w.Depth = []uint16{0, 511, 512}[sym.Choose("depth", 3)]
		deep = w.Depth >= 512
	}
	orig := new(big.Int).Set(amount)
	block := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, Height: 2, PrevHash: verifPrev, AccountAddress: verifUser, FromBlockHash: verifFrom, Data: []byte{9}}
	db := w.DB(verifUser)
	r, isRetry, err := NewVM(nil).RunV2(db, block, send, nil)
	enough := sym.Or(deep, w.total >= w.table.TxQuota)
	sym.Assert(sym.Iff(r != nil, enough), "received-exactly-with-enough-quota")
	sym.Assert(isRetry == (r == nil), "otherwise-tried-again-later")
	if r == nil {
		sym.Assert(err == util.ErrOutOfQuota, "out-of-quota")
		sym.Reach("receive-waits")
		return
	}
	for tok, b := range w.before {
		want := new(big.Int).Set(b)
		if tok == t {
			want.Add(want, orig)
		}
		sym.Assert(verifBalance(r.VmDb, tok).Cmp(want) == 0, "receiver-gains-exactly-the-amount")
	}
	sym.Assert(send.Amount.Cmp(orig) == 0 && len(r.AccountBlock.SendBlockList) == 0 && r.AccountBlock.BlockType == ledger.BlockTypeReceive, "plain-receive")
	verifNothingElse(r.VmDb)
	if !deep {
		w.expectQuota(r.AccountBlock, w.table.TxQuota)
		sym.Assert(err == nil, "success")
	}
	sym.Reach("received")
}

func verifPush(w ...byte) []byte { return append([]byte{byte(PUSH1) + byte(len(w)) - 1}, w...) }

func verifProg(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func verifOps(ops ...opCode) []byte {
	r := make([]byte, len(ops))
	for i, o := range ops {
		r[i] = byte(o)
	}
	return r
}

func verifStore(k, v byte) []byte { return verifProg(verifPush(v), verifPush(k), verifOps(SSTORE)) }
func verifLog() []byte            { return verifProg(verifPush(0), verifPush(0), verifOps(LOG0)) }

// verifTransfer is code that sends an amount of a token.
func verifTransfer(to types.Address, t types.TokenTypeId, amount []byte) []byte {
	return verifProg(verifPush(0), verifPush(0), verifPush(amount...), verifPush(t.Bytes()...), verifPush(to.Bytes()...), verifOps(CALL))
}

// verifConserved: for every token, what the account had plus what came in is what it has plus what it sends.
func verifConserved(w *verifWorld, db interfaces.VmDb, b *ledger.AccountBlock, in map[types.TokenTypeId]*big.Int, id string) {
	for tok, before := range w.before {
		l := new(big.Int).Set(before)
		if v, ok := in[tok]; ok {
			l.Add(l, v)
		}
		r := verifBalance(db, tok)
		sym.Assert(r.Sign() >= 0, "balances-are-never-negative")
		for _, s := range b.SendBlockList {
			if s.BlockType == ledger.BlockTypeSendReward {
				continue
			}
			if s.TokenId == tok {
				r = new(big.Int).Add(r, s.Amount)
			}
			if tok == ledger.ViteTokenId {
				r = new(big.Int).Add(r, s.Fee)
			}
		}
		sym.Assert(l.Cmp(r) == 0, id)
	}
}

// verifInflow is what the account gains: the amount and, when a failed call is refunded, the fee.
func verifInflow(send *ledger.AccountBlock, refunded bool) map[types.TokenTypeId]*big.Int {
	in := map[types.TokenTypeId]*big.Int{send.TokenId: new(big.Int).Set(send.Amount)}
	if refunded {
		if _, ok := in[ledger.ViteTokenId]; !ok {
			in[ledger.ViteTokenId] = new(big.Int)
		}
		in[ledger.ViteTokenId].Add(in[ledger.ViteTokenId], send.Fee)
	}
	return in
}

// VerifH_ReceiveContract: whatever contract code does, value is conserved; failed code leaves nothing behind and
// its caller is refunded.
func VerifH_ReceiveContract() {
	w := verifNewWorld(verifContract, sym.Param("eras", 1))
	a := w.Account(verifContract)
	confirms := byte(sym.Choose("confirm times", 2)) * 3
	a.Meta = &ledger.ContractMeta{QuotaRatio: 10, SendConfirmedTimes: confirms}
	a.SetValue(append(make([]byte, 31), 1), []byte{0x55})
	t := verifTokenOf("token")
	amount := sym.BigInt("amount", sym.Param("bits", 96))
	fee := new(big.Int)
	if sym.Choose("fee", 2) == 1 {
		fee = sym.BigInt("fee", 64)
	}
	w.Depth = []uint16{0, 512}[sym.Choose("depth", 2)]
	nx := sym.Param("bytes", 8)
	x, y := sym.Bytes("x", nx), sym.Bytes("y", nx)
	sym.Assume(sym.And(x[0] != 0, y[0] != 0))
	t2 := ledger.ViteTokenId
	if w.Depth == 0 {
		t2 = verifTokenOf("token sent")
	}
	base := w.table.TxQuota + uint64(confirms)*w.table.SnapshotQuota
	w.grant(800000, uint64(sym.Choose("work", 2))*15000)
	if w.Depth == 0 && w.add == 0 {
		w.grant(uint64([]int{800000, int(base) + 10000, int(base) - 1}[sym.Choose("quota", 3)]), 0)
	}
	prefix := verifProg(verifStore(2, 7), verifLog())
	kind := 4
	if w.Depth == 0 && w.total >= base {
		kind = sym.Choose("code", 8)
	}
	var code []byte
	sends := 0
	switch kind {
	case 0:
		code = verifOps(STOP)
	case 1:
		code = verifProg(prefix, verifOps(STOP))
	case 2:
		code = verifProg(prefix, verifPush(0), verifPush(0), verifOps(REVERT))
	case 3:
		code = verifProg(prefix, []byte{0xfe})
	case 4:
		code, sends = verifProg(prefix, verifTransfer(verifUser2, t2, x), verifOps(STOP)), 1
	case 5:
		code, sends = verifProg(verifTransfer(verifUser2, t2, x), verifTransfer(verifPeer, verifToken, y), verifStore(1, 0), verifOps(STOP)), 2
	case 6:
		code, sends = verifProg(verifTransfer(verifUser2, t2, x), verifPush(0), verifPush(0), verifOps(REVERT)), 1
	case 7: // to a contract that is not known (yet)
		code = verifProg(prefix, verifTransfer(types.Address{0x66, 20: 1}, t2, x), verifOps(STOP))
		if sym.Choose("request confirmed", 2) == 1 {
			w.ConfirmSb = w.Latest()
		}
	}
	a.Code = append([]byte{1}, code...)
	if w.total != 800000 && sym.Choose("unconfirmed", 2) == 1 {
		a.Unconf = []*ledger.AccountBlock{{}}
	}
	send := &ledger.AccountBlock{Hash: verifFrom, BlockType: ledger.BlockTypeSendCall, AccountAddress: verifUser2, ToAddress: verifContract, Amount: amount, TokenId: t, Fee: fee, Data: []byte{1}}
	amount0, fee0 := new(big.Int).Set(amount), new(big.Int).Set(fee)
	block := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, Height: 2, PrevHash: verifPrev, AccountAddress: verifContract, FromBlockHash: verifFrom}
	db := w.DB(verifContract)
	r, isRetry, err := NewVM(nil).RunV2(db, block, send, nil)
	sym.Assert(sym.And(send.Amount.Cmp(amount0) == 0, send.Fee.Cmp(fee0) == 0), "the-request-is-not-changed")
	sym.Assert(isRetry == (r == nil), "executed-or-tried-again")
	if r == nil {
		if kind == 7 && w.ConfirmSb == nil && err == util.ErrNoReliableStatus {
			sym.Reach("waits-for-a-snapshot")
			return
		}
		sym.Assert(err == util.ErrOutOfQuota && (w.total < base || len(a.Unconf) > 0), "waits-only-for-quota")
		sym.Reach("waits")
		return
	}
	b := r.AccountBlock
	h := r.VmDb.GetReceiptHash()
	sym.Assert(len(b.Data) == 33 && bytes.Equal(b.Data[:32], h[:]), "the-block-states-the-state-hash")
	sym.Assert(b.QuotaUsed <= w.total && b.Quota <= b.QuotaUsed, "quota-within-the-grant")
	for i, s := range b.SendBlockList {
		sym.Assert(s.AccountAddress == verifContract && s.Amount.Sign() >= 0, "requests-come-from-the-contract")
		_ = i
	}
	if w.Depth >= 512 {
		sym.Assert(err == util.ErrDepth && b.Data[32] == 2 && len(b.SendBlockList) == 0, "too-deep-calls-are-not-run")
		verifConserved(w, r.VmDb, b, verifInflow(send, false), "value-conserved-too-deep")
		verifNothingElse(r.VmDb)
		sym.Reach("deep")
		return
	}
	if err == nil {
		sym.Assert(b.Data[32] == 0 && b.BlockType == ledger.BlockTypeReceive, "success-is-stated")
		sym.Assert(kind != 2 && kind != 3 && kind != 6 && kind != 7 && len(b.SendBlockList) == sends, "success-has-every-effect")
		verifConserved(w, r.VmDb, b, verifInflow(send, false), "value-conserved-on-success")
		if sends > 0 {
			sym.Assert(sym.And(b.SendBlockList[0].Amount.Cmp(new(big.Int).SetBytes(x)) == 0, b.SendBlockList[0].TokenId == t2, b.SendBlockList[0].ToAddress == verifUser2), "first-transfer")
		}
		if sends > 1 {
			sym.Assert(sym.And(b.SendBlockList[1].Amount.Cmp(new(big.Int).SetBytes(y)) == 0, b.SendBlockList[1].TokenId == verifToken, b.SendBlockList[1].ToAddress == verifPeer), "second-transfer")
		}
		logs := 0
		if kind == 1 || kind == 4 {
			logs = 1
		}
		sym.Assert(len(r.VmDb.GetLogList()) == logs && (b.LogHash != nil) == (logs == 1), "logs-of-success")
		st := r.VmDb.GetUnsavedStorage()
		sym.Assert(len(st) == []int{0, 1, 0, 0, 1, 1, 0}[kind], "storage-of-success")
		if logs == 1 {
			sym.Assert(bytes.Equal(st[0][0], append(make([]byte, 31), 2)) && bytes.Equal(st[0][1], []byte{7}), "storage-of-success")
		}
		sym.Reach("success")
		return
	}
	sym.Assert(kind != 7 || w.ConfirmSb != nil || err == util.ErrOutOfQuota, "undecided-before-the-request-is-confirmed")
	wantType := ledger.BlockTypeReceive
	if err == util.ErrOutOfQuota {
		wantType = ledger.BlockTypeReceiveError
		sym.Assert(b.Quota == 0 && b.QuotaUsed == 0, "out-of-quota-uses-none")
	}
	sym.Assert(b.Data[32] == 1 && b.BlockType == wantType, "failure-is-stated")
	verifNothingElse(r.VmDb)
	sym.Assert(b.LogHash == nil && h.IsZero(), "failure-leaves-nothing")
	// the caller gets back exactly what it paid and the contract keeps what it had
	refund := map[types.TokenTypeId]*big.Int{ledger.ViteTokenId: new(big.Int), verifToken: new(big.Int)}
	for _, s := range b.SendBlockList {
		sym.Assert(s.ToAddress == verifUser2 && s.BlockType == ledger.BlockTypeSendRefund && s.Fee.Sign() == 0, "refund-goes-to-the-caller")
		refund[s.TokenId].Add(refund[s.TokenId], s.Amount)
	}
	for tok, v := range refund {
		want := new(big.Int)
		if in, ok := verifInflow(send, true)[tok]; ok {
			want = in
		}
		sym.Assert(v.Cmp(want) == 0, "the-caller-is-refunded-exactly")
		sym.Assert(verifBalance(r.VmDb, tok).Cmp(w.before[tok]) == 0, "a-failed-call-leaves-the-balance")
	}
	sym.Reach("failed")
}

// VerifH_ReceiveCreate: a constructor's result becomes the code, or everything is undone and refunded.
func VerifH_ReceiveCreate() {
	w := verifNewWorld(verifContract, 2)
	for t := range w.before {
		w.before[t] = new(big.Int)
		w.Account(verifContract).SetBalance(t, new(big.Int))
	}
	a := w.Account(verifContract)
	a.Meta = &ledger.ContractMeta{QuotaRatio: 10}
	w.grant(0, 0)
	t := verifTokenOf("token")
	amount := sym.BigInt("amount", sym.Param("bits", 96))
	x := sym.Bytes("x", 16)
	sym.Assume(x[0] != 0)
	var code []byte
	kind := sym.Choose("code", 5)
	ret := verifProg(verifPush(0xab), verifPush(0), verifOps(MSTORE8), verifPush(2), verifPush(0), verifOps(RETURN))
	switch kind {
	case 0:
		code = ret
	case 1:
		code = verifProg(verifStore(2, 7), verifTransfer(verifUser2, t, x), ret)
	case 2:
		code = verifProg(verifStore(2, 7), verifLog(), verifTransfer(verifUser2, t, x), verifPush(0), verifPush(0), verifOps(REVERT))
	case 3:
		code = []byte{0xfe}
	case 4: // longer than a contract may be
		code = verifProg(verifPush(0x60, 0x00), verifPush(0), verifOps(RETURN))
	}
	gid := types.DELEGATE_GID
	data := append(append([]byte{}, gid.Bytes()...), 1, 0, 0, 10)
	if w.h == 1 {
		data = append(append([]byte{}, gid.Bytes()...), 1, 0, 10)
	}
	send := &ledger.AccountBlock{Hash: verifFrom, BlockType: ledger.BlockTypeSendCreate, AccountAddress: verifUser2, ToAddress: verifContract, Amount: amount, TokenId: t, Fee: big.NewInt(1000), Data: append(data, code...)}
	amount0 := new(big.Int).Set(amount)
	collision := sym.Choose("address in use", 2) == 1
	if collision {
		a.Blocks = []*ledger.AccountBlock{{Hash: verifPrev, Height: 1}}
	}
	block := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, Height: 1, AccountAddress: verifContract, FromBlockHash: verifFrom}
	r, isRetry, err := NewVM(nil).RunV2(w.DB(verifContract), block, send, nil)
	sym.Assert(send.Amount.Cmp(amount0) == 0, "the-request-is-not-changed")
	if collision {
		sym.Assert(r == nil && !isRetry && err != nil, "an-address-is-created-once")
		sym.Reach("collision")
		return
	}
	sym.Assert(r != nil && !isRetry, "executed")
	b := r.AccountBlock
	h := r.VmDb.GetReceiptHash()
	sym.Assert(len(b.Data) == 33 && bytes.Equal(b.Data[:32], h[:]) && b.Quota == 0 && b.QuotaUsed == 0, "the-block-states-the-state-hash")
	verifConserved(w, r.VmDb, b, verifInflow(send, false), "value-conserved-on-creation")
	if b.Data[32] == 0 {
		if kind == 4 && w.h == 1 {
			return // before an upgrade code that was too long left neither code nor an error
		}
		sym.Assert(err == nil && kind <= 1 && bytes.Equal(r.VmDb.GetUnsavedContractCode(), []byte{1, 0xab, 0}), "the-returned-code-is-stored")
		sym.Assert(len(b.SendBlockList) == kind, "success-has-every-effect")
		sym.Reach("constructed")
		return
	}
	sym.Assert(b.Data[32] == 1 && kind != 0, "failure-is-stated")
	sym.Assert(err != nil, "failure-is-stated")
	verifNothingElse(r.VmDb)
	want := 0
	if amount0.Sign() > 0 {
		want = 1
	}
	sym.Assert(len(b.SendBlockList) == want, "one-refund")
	if want == 1 {
		s := b.SendBlockList[0]
		sym.Assert(sym.And(s.ToAddress == verifUser2, s.BlockType == ledger.BlockTypeSendRefund, s.TokenId == t, s.Amount.Cmp(amount0) == 0), "the-creator-is-refunded")
	}
	sym.Reach("construction-failed")
}
