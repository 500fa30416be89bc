// Package stake checks the contract that keeps stakes for quota against a plain record of every stake.
package stake

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

var (
	alice = types.Address{0x11}
	bob   = types.Address{0x12}
	users = []types.Address{alice, bob}
	agent = types.Address{0x31, 20: 1} // a contract that stakes for others
	agen2 = types.Address{0x32, 20: 1}
	zero  = new(big.Int)
	least = new(big.Int).Mul(big.NewInt(134), builtin.Big10(18))
	id0   = types.Hash{0xdd, 1}
	id1   = types.Hash{0xdd, 2}
)

const (
	now    = uint64(builtin.Newest)
	lock   = uint64(3600 * 24 * 3)
	lockTo = uint64(3600 * 24 * 365)
)

// stake is one stake on record.
type stake struct {
	staker      types.Address
	index       uint64
	amount      *big.Int
	expires     uint64
	beneficiary types.Address
	delegated   bool
	by          types.Address
	bid         byte
	id          *types.Hash // of new stakes
}

func (s *stake) key() []byte { return cabi.GetStakeInfoKey(s.staker, s.index) }

func (s *stake) pack() []byte {
	var v []byte
	var err error
	if s.id != nil {
		v, err = cabi.ABIQuota.PackVariable(cabi.VariableNameStakeInfoV2, s.amount, s.expires, s.beneficiary, *s.id)
	} else {
		v, err = cabi.ABIQuota.PackVariable(cabi.VariableNameStakeInfo, s.amount, s.expires, s.beneficiary, s.delegated, s.by, s.bid)
	}
	if err != nil {
		panic(err)
	}
	return v
}

func (s *stake) same(i *types.StakeInfo) bool {
	if (i.Id == nil) != (s.id == nil) || i.Id != nil && *i.Id != *s.id {
		return false
	}
	return sym.And(i.Amount.Cmp(s.amount) == 0, i.ExpirationHeight == s.expires, i.Beneficiary == s.beneficiary, i.IsDelegated == s.delegated, i.DelegateAddress == s.by, i.Bid == s.bid, i.StakeAddress == s.staker)
}

type world struct {
	*builtin.World
	list []*stake
	ids  map[types.Hash]*stake
}

func amountOf(name string) *big.Int {
	a := sym.BigInt(name, 72)
	sym.Assume(a.Cmp(least) >= 0)
	return a
}

func (w *world) add(s *stake) {
	a := w.Account(types.AddressQuota)
	a.SetValue(s.key(), s.pack())
	if s.id != nil {
		a.SetValue(s.id.Bytes(), s.key())
		w.ids[*s.id] = s
	}
	i := 0
	for i < len(w.list) && bytes.Compare(w.list[i].key(), s.key()) < 0 {
		i++
	}
	w.list = append(w.list[:i], append([]*stake{s}, w.list[i:]...)...)
}

func (w *world) sum(of types.Address) *big.Int {
	t := new(big.Int)
	for _, s := range w.list {
		if s.beneficiary == of {
			t.Add(t, s.amount)
		}
	}
	return t
}

// newWorld holds two stakes: one of the given kind by alice (0: old, 1: new, 2: made by an agent) and a new one by
// either user.
func newWorld(kind int) *world {
	w := &world{World: builtin.New(now, 1600000000), ids: map[types.Hash]*stake{}}
	s := &stake{staker: alice, index: 5, amount: amountOf("staked"), expires: uint64(sym.Uint32("expires")), beneficiary: users[sym.Choose("beneficiary", 2)]}
	switch kind {
	case 1:
		s.id = &id0
	case 2:
		s.delegated, s.by, s.bid = true, agent, sym.Byte("bid on record")
	}
	w.add(s)
	o := &stake{staker: users[sym.Choose("staker of the other", 2)], index: 7, amount: amountOf("other stake"), expires: uint64(sym.Uint32("other expires")), beneficiary: bob, id: &id1}
	if kind == 2 {
		o.index = 4
	}
	w.add(o)
	a := w.Account(types.AddressQuota)
	all := new(big.Int)
	for _, u := range users {
		if t := w.sum(u); t != nil {
			all.Add(all, t)
		}
	}
	for _, u := range users {
		for _, x := range w.list {
			if x.beneficiary == u {
				v, _ := cabi.ABIQuota.PackVariable(cabi.VariableNameStakeBeneficial, w.sum(u))
				a.SetValue(cabi.GetStakeBeneficialKey(u), v)
				break
			}
		}
	}
	a.SetBalance(core.ViteTokenId, all)
	for n := []int{0, 9, 6}[sym.Choose("blocks before", 3)]; n > 0; n-- {
		a.Blocks = append(a.Blocks, &core.AccountBlock{})
	}
	return w
}

// expect compares every way of asking with the record.
func (w *world) expect(id string) {
	db := w.View(types.AddressQuota)
	list, _, err := cabi.GetStakeListByPage(db, nil, 10)
	sym.Assert(err == nil && len(list) == len(w.list), id)
	all := new(big.Int)
	for i, s := range w.list {
		sym.Assert(s.same(list[i]), id)
		all.Add(all, s.amount)
	}
	sym.Assert(w.Account(types.AddressQuota).Balance(core.ViteTokenId).Cmp(all) == 0, "the-contract-holds-exactly-what-is-staked")
	for _, u := range users {
		b, err := cabi.GetStakeBeneficialAmount(db, u)
		sym.Assert(err == nil && b.Cmp(w.sum(u)) == 0, "a-beneficiary-counts-exactly-the-stakes-for-it")
		mine, sum, err := cabi.GetStakeInfoList(db, u)
		n, t := 0, new(big.Int)
		for _, s := range w.list {
			if s.staker == u && !s.delegated {
				n++
				t.Add(t, s.amount)
			}
		}
		sym.Assert(err == nil && len(mine) == n && sum.Cmp(t) == 0, "a-user-sees-its-own-stakes")
	}
	for h, s := range w.ids {
		got, err := cabi.GetStakeInfoById(db, h.Bytes())
		if s == nil {
			sym.Assert(err != nil && got == nil, "a-cancelled-stake-is-gone")
			continue
		}
		sym.Assert(err == nil && got != nil && got.Amount.Cmp(s.amount) == 0 && got.ExpirationHeight == s.expires && got.Beneficiary == s.beneficiary, "a-stake-is-found-by-its-id")
	}
}

func (w *world) pages() {
	db := w.View(types.AddressQuota)
	var last []byte
	for i := range w.list {
		l, next, err := cabi.GetStakeListByPage(db, last, 1)
		sym.Assert(err == nil && len(l) == 1 && w.list[i].same(l[0]), "pages-continue-where-they-ended")
		last = next
	}
}

func (w *world) drop(s *stake) {
	var l []*stake
	for _, x := range w.list {
		if x != s {
			l = append(l, x)
		}
	}
	w.list = l
	if s.id != nil {
		w.ids[*s.id] = nil
	}
}

func pack(name string, args ...interface{}) []byte {
	d, err := cabi.ABIQuota.PackMethod(name, args...)
	if err != nil {
		panic(err)
	}
	return d
}

func callback(name string, args ...interface{}) []byte {
	d, err := cabi.ABIQuota.PackCallback(name, args...)
	if err != nil {
		panic(err)
	}
	return d
}

func oldName(v1, v2 string) string {
	if sym.Choose("first name", 2) == 1 {
		return v1
	}
	return v2
}

// sendStake asks for a stake with any amount of money in either token.
func (w *world) sendStake(from types.Address, data []byte, valid bool) (*core.AccountBlock, *big.Int) {
	amount := sym.BigInt("amount", 72)
	t := core.ViteTokenId
	if sym.Choose("token", 2) == 1 {
		t = types.TokenTypeId{0x77}
	}
	has := sym.BigInt("balance", 72)
	w.Account(from).SetBalance(t, has)
	has = new(big.Int).Set(has)
	s, err := w.Send(from, types.AddressQuota, t, amount, data)
	sym.Assert(sym.Iff(err == nil, sym.And(valid, t == core.ViteTokenId, amount.Cmp(least) >= 0, amount.Cmp(has) <= 0)), "only-enough-vite-is-staked")
	if err != nil {
		sym.Assert(w.Account(from).Balance(t).Cmp(has) == 0, "a-refused-request-costs-nothing")
		w.expect("nothing-changed")
		sym.Reach("not requested")
		return nil, nil
	}
	return s, amount
}

// VerifH_Stake: a stake of the old kind is added to the one there is for the same beneficiary, or recorded anew.
func VerifH_Stake() {
	kind := sym.Choose("kind", 3)
	w := newWorld(kind)
	from, ben := users[sym.Choose("sender", 2)], users[sym.Choose("for", 2)]
	s, amount := w.sendStake(from, pack(oldName(cabi.MethodNameStake, cabi.MethodNameStakeV2), ben), true)
	if s == nil {
		return
	}
	b, err := w.Receive(s, nil)
	sym.Assert(err == nil && len(b.SendBlockList) == 0, "a-stake-is-taken")
	var old *stake
	max := uint64(0)
	for _, x := range w.list {
		if x.staker != from {
			continue
		}
		if x.beneficiary == ben && !x.delegated && old == nil {
			old = x
		}
		if x.index > max {
			max = x.index
		}
	}
	if old != nil {
		// a later stake for the same beneficiary renews the lock
		old.amount = new(big.Int).Add(old.amount, amount)
		old.expires = now + lock
		old.id = nil
		w.expect("a-stake-is-added-to-the-one-there-is")
		sym.Reach("added")
		return
	}
	n := &stake{staker: from, amount: amount, expires: now + lock, beneficiary: ben}
	w.adopt(n)
	w.expect("a-stake-is-recorded")
	sym.Reach("new")
}

// adopt puts a new stake on record where the contract put it; the place is the contract's choice.
func (w *world) adopt(n *stake) {
	db := w.View(types.AddressQuota)
	list, _, err := cabi.GetStakeListByPage(db, nil, 10)
	sym.Assert(err == nil && len(list) == len(w.list)+1, "a-new-stake-overwrites-none")
	a := w.Account(types.AddressQuota)
	for _, p := range a.Storage {
		if !cabi.IsStakeInfoKey(p.Key) || !bytes.HasPrefix(p.Key, n.staker.Bytes()) {
			continue
		}
		known := false
		for _, x := range w.list {
			known = known || bytes.Equal(x.key(), p.Key)
		}
		if !known {
			n.index = cabi.GetIndexFromStakeInfoKey(p.Key)
			i := 0
			for i < len(w.list) && bytes.Compare(w.list[i].key(), n.key()) < 0 {
				i++
			}
			w.list = append(w.list[:i:i], append([]*stake{n}, w.list[i:]...)...)
			if n.id != nil {
				w.ids[*n.id] = n
			}
			return
		}
	}
	sym.Assert(false, "a-new-stake-is-recorded-under-its-staker")
}

// VerifH_CancelOld: a stake of the old kind is returned, in part or whole, to its staker only, when it is due.
func VerifH_CancelOld() {
	kind := sym.Choose("kind", 3)
	w := newWorld(kind)
	from, ben := users[sym.Choose("sender", 2)], users[sym.Choose("for", 2)]
	amount := sym.BigInt("amount", 72)
	s, err := w.Send(from, types.AddressQuota, core.ViteTokenId, zero, pack(oldName(cabi.MethodNameCancelStake, cabi.MethodNameCancelStakeV2), ben, amount))
	sym.Assert(sym.Iff(err == nil, amount.Cmp(least) >= 0), "an-amount-is-taken-back")
	if err != nil {
		return
	}
	b, err := w.Receive(s, nil)
	var old *stake
	for _, x := range w.list {
		if x.staker == from && x.beneficiary == ben && !x.delegated {
			old = x
			break
		}
	}
	ok := old != nil && old.id == nil
	if ok {
		left := new(big.Int).Sub(old.amount, amount)
		ok = sym.And(old.expires <= now, left.Sign() >= 0, sym.Or(left.Sign() == 0, left.Cmp(least) >= 0))
	}
	sym.Assert(sym.Iff(err == nil, ok), "a-due-stake-is-returned-to-its-staker-only")
	if err != nil {
		w.expect("nothing-changed")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(b.SendBlockList) == 1, "one-return")
	r := b.SendBlockList[0]
	sym.Assert(sym.And(r.Amount.Cmp(amount) == 0, r.TokenId == core.ViteTokenId, r.ToAddress == from), "exactly-the-amount-is-returned")
	if left := new(big.Int).Sub(old.amount, amount); left.Sign() == 0 {
		w.drop(old)
	} else {
		old.amount = left
	}
	w.expect("the-rest-stays-staked")
	sym.Reach("returned")
}

// VerifH_Delegate: a stake made by an agent for a user counts for the beneficiary and is the agent's to take back.
func VerifH_Delegate() {
	w := newWorld(2)
	by := []types.Address{agent, agen2}[sym.Choose("agent", 2)]
	w.Account(by).Meta = &core.ContractMeta{QuotaRatio: 10}
	who, ben := users[sym.Choose("staker", 2)], users[sym.Choose("for", 2)]
	bid := sym.Byte("bid")
	height := uint64(sym.Uint32("height"))
	s, amount := w.sendStake(by, pack(oldName(cabi.MethodNameDelegateStake, cabi.MethodNameDelegateStakeV2), who, ben, bid, height), sym.And(height >= lock, height <= lockTo))
	if s == nil {
		return
	}
	b, err := w.Receive(s, nil)
	sym.Assert(err == nil && len(b.SendBlockList) == 1, "a-stake-is-taken-and-answered")
	var old *stake
	for _, x := range w.list {
		if x.staker == who && x.beneficiary == ben && x.delegated && x.by == by {
			old = x
		}
	}
	if old != nil && bid == old.bid {
		old.amount = new(big.Int).Add(old.amount, amount)
		if now+height > old.expires {
			old.expires = now + height
		}
		sym.Reach("added")
	} else {
		w.adopt(&stake{staker: who, amount: amount, expires: now + height, beneficiary: ben, delegated: true, by: by, bid: bid})
		sym.Reach("new")
	}
	w.expect("a-delegated-stake-is-recorded")
	r := b.SendBlockList[0]
	name := cabi.MethodNameDelegateStake
	if s.Data[0] != pack(cabi.MethodNameDelegateStake, who, ben, bid, height)[0] {
		name = cabi.MethodNameDelegateStakeV2
	}
	sym.Assert(sym.And(r.ToAddress == by, r.Amount.Sign() == 0, sym.EqBytes(r.Data, callback(name, who, ben, amount, bid, true))), "the-agent-is-told")
}

// VerifH_CancelDelegate: only the agent takes its stake back, when it is due.
func VerifH_CancelDelegate() {
	w := newWorld(2)
	by := []types.Address{agent, agen2, alice}[sym.Choose("agent", 3)]
	if by != alice {
		w.Account(by).Meta = &core.ContractMeta{QuotaRatio: 10}
	}
	who, ben := users[sym.Choose("staker", 2)], users[sym.Choose("for", 2)]
	bid := sym.Byte("bid")
	amount := sym.BigInt("amount", 72)
	name := oldName(cabi.MethodNameCancelDelegateStake, cabi.MethodNameCancelDelegateStakeV2)
	s, err := w.Send(by, types.AddressQuota, core.ViteTokenId, zero, pack(name, who, ben, amount, bid))
	sym.Assert(sym.Iff(err == nil, amount.Cmp(least) >= 0), "an-amount-is-taken-back")
	if err != nil {
		return
	}
	b, err := w.Receive(s, nil)
	var old *stake
	for _, x := range w.list {
		if x.staker == who && x.beneficiary == ben && x.delegated && x.by == by {
			old = x
		}
	}
	ok := old != nil
	if ok {
		left := new(big.Int).Sub(old.amount, amount)
		ok = sym.And(bid == old.bid, old.expires <= now, left.Sign() >= 0, sym.Or(left.Sign() == 0, left.Cmp(least) >= 0))
	}
	sym.Assert(sym.Iff(err == nil, ok), "a-due-stake-is-returned-to-its-agent-only")
	sym.Assert(len(b.SendBlockList) == 1, "one-answer")
	r := b.SendBlockList[0]
	sym.Assert(r.ToAddress == by && sym.EqBytes(r.Data, callback(name, who, ben, amount, bid, err == nil)), "the-agent-is-told")
	if err != nil {
		sym.Assert(r.Amount.Sign() == 0, "nothing-is-returned")
		w.expect("nothing-changed")
		sym.Reach("refused")
		return
	}
	sym.Assert(sym.And(r.Amount.Cmp(amount) == 0, r.TokenId == core.ViteTokenId), "exactly-the-amount-is-returned")
	if left := new(big.Int).Sub(old.amount, amount); left.Sign() == 0 {
		w.drop(old)
	} else {
		old.amount = left
	}
	w.expect("the-rest-stays-staked")
	sym.Reach("returned")
}

// VerifH_StakeNew: every stake of the new kind is recorded by itself under its id and locked for its period.
func VerifH_StakeNew() {
	w := newWorld(sym.Choose("kind", 3))
	back := sym.Choose("with callback", 2) == 1
	from, ben := users[sym.Choose("sender", 2)], users[sym.Choose("for", 2)]
	height, valid := lock, true
	data := pack(cabi.MethodNameStakeV3, ben)
	if back {
		height = uint64(sym.Uint32("height"))
		valid = sym.And(height >= lock, height <= lockTo)
		data = pack(cabi.MethodNameStakeWithCallback, ben, height)
	}
	s, amount := w.sendStake(from, data, valid)
	if s == nil {
		return
	}
	b, err := w.Receive(s, nil)
	sym.Assert(err == nil, "a-stake-is-taken")
	if back {
		sym.Assert(len(b.SendBlockList) == 1, "a-stake-is-answered")
		r := b.SendBlockList[0]
		sym.Assert(sym.And(r.ToAddress == from, r.Amount.Sign() == 0, sym.EqBytes(r.Data, callback(cabi.MethodNameStakeWithCallback, s.Hash, true))), "the-staker-is-told")
	} else {
		sym.Assert(len(b.SendBlockList) == 0, "no-answer-asked-for")
	}
	h := s.Hash
	w.adopt(&stake{staker: from, amount: amount, expires: now + height, beneficiary: ben, id: &h})
	w.expect("a-stake-is-recorded")
	w.pages()
	sym.Reach("new")
}

// VerifH_CancelNew: a stake of the new kind is returned whole, once, to its staker only, when it is due.
func VerifH_CancelNew() {
	w := newWorld(sym.Choose("kind", 3))
	back := sym.Choose("with callback", 2) == 1
	from := users[sym.Choose("sender", 2)]
	id := []types.Hash{id0, id1, {0xdd, 3}}[sym.Choose("id", 3)]
	name := cabi.MethodNameCancelStakeV3
	if back {
		name = cabi.MethodNameCancelStakeWithCallback
	}
	for i := 0; i < 2; i++ {
		s, err := w.Send(from, types.AddressQuota, core.ViteTokenId, zero, pack(name, id))
		sym.Assert(err == nil, "anyone-may-ask")
		b, err := w.Receive(s, nil)
		old := w.ids[id]
		ok := old != nil && old.staker == from && old.expires <= now
		sym.Assert((err == nil) == ok, "a-due-stake-is-returned-to-its-staker-only")
		if back {
			sym.Assert(len(b.SendBlockList) == 1 && sym.EqBytes(b.SendBlockList[0].Data, callback(name, id, ok)) && b.SendBlockList[0].ToAddress == from, "the-staker-is-told")
		} else if !ok {
			sym.Assert(len(b.SendBlockList) == 0, "no-answer-asked-for")
		}
		if !ok {
			w.expect("nothing-changed")
			sym.Reach("refused")
			return
		}
		sym.Assert(len(b.SendBlockList) == 1, "one-return")
		r := b.SendBlockList[0]
		sym.Assert(sym.And(r.Amount.Cmp(old.amount) == 0, r.TokenId == core.ViteTokenId, r.ToAddress == from), "exactly-the-stake-is-returned")
		w.drop(old)
		w.expect("the-others-stay-staked")
		sym.Reach("returned")
	}
}
