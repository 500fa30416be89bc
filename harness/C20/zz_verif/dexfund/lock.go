package dexfund

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

var coin = builtin.Big10(18)

// tomorrow lets n periods of the exchange pass, one after another.
func (e *exchange) tomorrow(n int) {
	for i := 0; i < n; i++ {
		e.period++
		e.periods = append(e.periods, e.period)
		e.setup(fund, func(db interfaces.VmDb) {
			if err := dex.SetDexTimestamp(db, int64(e.period)*day+1, reader{}); err != nil {
				panic(err)
			}
		})
	}
}

func (e *exchange) job(from types.Address, period uint64, biz uint8) error {
	_, err := e.ask(from, core.ViteTokenId, zero, data(abi.MethodNameDexFundTriggerPeriodJob, period, biz))
	return err
}

type due struct {
	user   types.Address
	period uint64
	amount *big.Int
}

// around is k coins and a little less or more.
func around(name string, bits int) *big.Int {
	a := new(big.Int).Mul(coin, sym.BigInt(name, bits))
	return sub(add(a, sym.BigInt(name+"d", 1)), sym.BigInt(name+"e", 1))
}

// VerifH_Vx: VX locked for dividends is released to its owner seven periods after the owner asked for it, not before.
func VerifH_Vx() {
	e := open(builtin.Newest)
	e.tokens = []types.TokenTypeId{dex.VxTokenId}
	bits := sym.Param("bits", 5)
	for _, u := range e.users[:2] {
		e.stock(u, dex.VxTokenId, mul(coin, 24))
	}
	if sym.Choose("locked", 2) == 1 {
		for _, u := range e.users[:2] {
			if _, err := e.ask(u, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, uint8(dex.LockVx), mul(coin, 20))); err != nil {
				panic(err)
			}
			h := e.hold(u, dex.VxTokenId)
			h.free, h.vx = mul(coin, 4), mul(coin, 20)
		}
	}
	var leaving []due
	min := mul(coin, 10)
	for i := 0; i < sym.Param("steps", 2); i++ {
		id := string(rune('0' + i))
		if sym.Choose("pass"+id, 2) == 1 {
			e.tomorrow(1)
		}
		u := e.users[sym.Choose("user"+id, sym.Param("users", 1+i))]
		h := e.hold(u, dex.VxTokenId)
		amount := around("amount"+id, bits)
		sym.Assume(amount.Sign() >= 0)
		lock := sym.Choose("lock"+id, 2) == 1
		action := uint8(dex.UnlockVx)
		left := sub(h.vx, amount)
		may := sym.And(left.Sign() >= 0, sym.Or(left.Sign() == 0, left.Cmp(min) >= 0))
		if lock {
			action = dex.LockVx
			may = amount.Cmp(h.free) <= 0
		}
		may = sym.And(may, amount.Cmp(coin) >= 0)
		_, err := e.ask(u, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, action, amount))
		sym.Assert((err == nil) == may, "a-lock-or-unlock-is-taken-within-what-is-free-or-locked")
		if err == nil {
			if lock {
				h.free, h.vx = sub(h.free, amount), add(h.vx, amount)
				sym.Reach("lock")
			} else {
				h.vx, h.vxLeaving = left, add(h.vxLeaving, amount)
				leaving = append(leaving, due{u, e.period, amount})
				sym.Reach("unlock")
			}
		}
		sum := new(big.Int)
		for _, x := range e.users {
			if g := e.hold(x, dex.VxTokenId); g.vx.Cmp(min) >= 0 {
				sum = add(sum, g.vx)
			}
		}
		f, _ := dex.GetVxSumFundsWithForkCheck(e.View(fund))
		got := new(big.Int)
		if len(f.Funds) > 0 {
			got = num(f.Funds[len(f.Funds)-1].Amount)
		}
		sym.Assert(got.Cmp(sum) == 0, "dividends-are-shared-by-what-is-locked")
		e.asRecorded()
		e.covered()
	}
	e.tomorrow(7)
	last := uint64(0)
	for i := 0; i < 2; i++ {
		id := string(rune('0' + i))
		by := []types.Address{trigger, alice}[sym.Choose("by"+id, 2-i)]
		at := e.period + 1 - uint64(sym.Choose("at"+id, 4-i))
		err := e.job(by, at, dex.FinishVxUnlock)
		sym.Assert((err == nil) == (by == trigger && at < e.period && (last == 0 || at == last+1)), "periods-are-finished-in-order-and-after-they-ended")
		if err == nil {
			last = at
			for k := range leaving {
				if d := &leaving[k]; d.amount != nil && d.period+7 <= at {
					h := e.hold(d.user, dex.VxTokenId)
					h.free, h.vxLeaving = add(h.free, d.amount), sub(h.vxLeaving, d.amount)
					d.amount = nil
					sym.Reach("released")
				}
			}
		}
		e.asRecorded()
		e.covered()
		if by != trigger {
			return
		}
		e.tomorrow(1)
	}
}

// VerifH_Dividend: of the fees collected one percent a period goes to the owners of locked VX by what they locked,
// each coin once.
func VerifH_Dividend() {
	e := open(builtin.Newest)
	e.tokens = []types.TokenTypeId{dex.VxTokenId, quoteToken, core.ViteTokenId}
	which := sym.Choose("shares", sym.Param("shares", 4))
	shares := [][2]int64{{10, 30}, {16, 0}, {0, 0}, {40, 24}}[which]
	more := []int64{24, 16, 20, 64}[which]
	for i, u := range e.users[:2] {
		e.stock(u, dex.VxTokenId, mul(coin, 100))
		if shares[i] > 0 {
			if _, err := e.ask(u, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, uint8(dex.LockVx), mul(coin, shares[i]))); err != nil {
				panic(err)
			}
			h := e.hold(u, dex.VxTokenId)
			h.free, h.vx = mul(coin, 100-shares[i]), mul(coin, shares[i])
		}
	}
	bits := sym.Param("bits", 8)
	pool := add(big.NewInt(100000), sym.BigInt("pool", bits))
	vite := sym.BigInt("vite", bits)
	op := sym.BigInt("operator", bits)
	e.setup(fund, func(db interfaces.VmDb) {
		f, _ := dex.GetDexFeesByPeriodId(db, e.period)
		f.FeesForDividend = []*dexproto.FeeForDividend{
			{Token: quoteToken.Bytes(), DividendPoolAmount: pool.Bytes()},
			{Token: core.ViteTokenId.Bytes(), DividendPoolAmount: vite.Bytes(), NotRoll: true}}
		dex.SaveDexFeesByPeriodId(db, e.period, f)
		o := &dex.OperatorFeesByPeriod{}
		o.OperatorFees = []*dexproto.OperatorFeeAccount{{Token: quoteToken.Bytes(), MarketFees: []*dexproto.OperatorMarketFee{{MarketId: 7, Amount: op.Bytes()}, {MarketId: 8, Amount: op.Bytes()}}}}
		dex.SaveCurrentOperatorFees(db, reader{}, owner.Bytes(), o)
	})
	e.give(fund, quoteToken, add(pool, mul(op, 2)))
	e.give(fund, core.ViteTokenId, vite)
	first := e.period
	e.tomorrow(1)
	e.covered()
	e.asRecorded()
	gap := 0
	if which == 0 {
		gap = sym.Choose("gap", 2)
	}
	e.tomorrow(gap)
	// what is locked or unlocked now does not change who shares in the fees of yesterday
	next := shares
	switch sym.Choose("later", 3) {
	case 1:
		if shares[0] > 0 {
			if _, err := e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, uint8(dex.UnlockVx), mul(coin, shares[0]))); err != nil {
				panic(err)
			}
			h := e.hold(alice, dex.VxTokenId)
			h.vx, h.vxLeaving = new(big.Int), mul(coin, shares[0])
			next[0] = 0
		}
	case 2:
		if _, err := e.ask(carol, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, uint8(dex.LockVx), coin)); err == nil {
			panic("nothing to lock")
		}
		if _, err := e.ask(bob, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, uint8(dex.LockVx), mul(coin, more))); err != nil {
			panic(err)
		}
		h := e.hold(bob, dex.VxTokenId)
		h.free, h.vx = sub(h.free, mul(coin, more)), add(h.vx, mul(coin, more))
		next[1] += more
	}
	// divide hands out the fees of a period, and of earlier ones in which nobody could share.
	var unshared *big.Int
	divide := func(period uint64, shares [2]int64, pool, vite *big.Int) {
		for i := 0; i < 2; i++ {
			before := []*big.Int{e.actual(alice, quoteToken).free, e.actual(bob, quoteToken).free}
			err := e.job(trigger, period, dex.FeeDividendJob)
			sym.Assert((err == nil) == (i == 0), "fees-of-a-period-are-handed-out-once")
			if i == 1 {
				continue
			}
			one := num(dex.CalculateAmountForRate(pool.Bytes(), dex.PerPeriodDividendRate))
			d := sub(mul(one, 100), pool)
			sym.Assert(sym.And(d.Cmp(big.NewInt(100)) <= 0, d.Cmp(big.NewInt(-100)) >= 0), "a-dividend-is-one-percent-of-the-pool")
			if unshared != nil {
				one = add(one, unshared)
			}
			total := shares[0] + shares[1]
			if total > 0 {
				got := new(big.Int)
				for k, u := range e.users[:2] {
					a := sub(e.actual(u, quoteToken).free, before[k])
					got = add(got, a)
					d := sub(mul(a, total), mul(one, shares[k]))
					sym.Assert(sym.And(d.Cmp(big.NewInt(total)) <= 0, d.Cmp(big.NewInt(-total)) >= 0), "dividends-are-shared-by-what-is-locked")
					h := e.hold(u, quoteToken)
					h.free = add(h.free, a)
				}
				sym.Assert(got.Cmp(one) == 0, "all-of-a-dividend-is-handed-out")
				if vite.Sign() > 0 {
					sym.Assert(len(e.pending) == 1 && e.pending[0].ToAddress == types.AddressAsset && e.pending[0].TokenId == core.ViteTokenId, "vite-fees-are-burned")
					sym.Assert(e.pending[0].Amount.Cmp(vite) == 0, "vite-fees-are-burned")
					e.pending = nil
				}
				sym.Reach("dividend")
			} else {
				unshared = one
				sym.Reach("no-dividend")
			}
			sym.Assert(len(e.pending) == 0 && len(e.out) == 0, "dividends-stay-on-the-exchange")
			e.asRecorded()
			e.covered()
		}
	}
	divide(first, shares, pool, vite)
	if shares[0]+shares[1] > 0 {
		vite = new(big.Int)
	}
	err := e.job(trigger, first, dex.OperatorFeeDividendJob)
	sym.Assert(err == nil, "operator-fees-are-handed-out")
	sym.Assert(e.actual(owner, quoteToken).free.Cmp(mul(op, 2)) == 0, "an-operator-gets-the-fees-of-all-its-markets")
	e.asRecorded()
	e.covered()
	if sym.Param("rounds", 2) == 2 {
		f, _ := dex.GetDexFeesByPeriodId(e.View(fund), first+1)
		rest := new(big.Int)
		for _, x := range f.FeesForDividend {
			if string(x.Token) == string(quoteToken.Bytes()) {
				rest = num(x.DividendPoolAmount)
			}
		}
		sym.Assert(add(rest, num(dex.CalculateAmountForRate(pool.Bytes(), dex.PerPeriodDividendRate))).Cmp(pool) == 0, "what-is-not-handed-out-stays-in-the-pool")
		e.tomorrow(1)
		if gap == 1 { // what was locked or unlocked since came too late for this period too
			next = shares
		}
		divide(first+1, next, rest, vite)
		sym.Reach("second-period")
	}
}

// VerifH_Stake: VITE staked through the exchange stays its owner's.
func VerifH_Stake() {
	e := open(builtin.Newest)
	e.Chained = true
	vite := core.ViteTokenId
	e.tokens = []types.TokenTypeId{vite}
	type stake struct {
		user   types.Address
		id     types.Hash
		amount *big.Int
		kind   int
		vip    types.Address
		height uint64
		gone   bool
	}
	var stakes []*stake
	amounts := []*big.Int{mul(coin, 134), dex.StakeForVIPAmount, dex.StakeForSuperVIPAmount, dex.StakeForSuperVIPAmount}
	for _, u := range e.users[:2] {
		e.stock(u, vite, add(dex.StakeForSuperVIPAmount, sym.BigInt("stock"+string(u.Bytes()[:1]), 3)))
	}
	// run lets everything between the contracts happen.
	run := func() {
		for len(e.pending) > 0 {
			s := e.pending[0]
			e.pending = e.pending[1:]
			r, err := e.Receive(s, nil)
			sym.Assert(err == nil || s.ToAddress == types.AddressQuota, "callbacks-are-understood")
			e.pending = append(e.pending, r.SendBlockList...)
		}
	}
	check := func() {
		out := new(big.Int)
		for _, u := range e.users[:2] {
			own := e.actual(u, vite).sum()
			for _, s := range stakes {
				if s.user == u && !s.gone {
					own = add(own, s.amount)
					out = add(out, s.amount)
				}
			}
			h := e.hold(u, vite)
			sym.Assert(own.Cmp(h.free) == 0, "staked-coins-stay-their-owners")
		}
		sym.Assert(e.Account(types.AddressQuota).Balance(vite).Cmp(out) == 0, "the-quota-contract-keeps-what-is-staked")
		e.covered()
	}
	n := sym.Param("stakes", 2)
	delayed := sym.Choose("delayed", 2) == 1
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		kinds := sym.Param("kinds", 4)
		kind := sym.Choose("kind"+id, kinds)
		u := e.users[sym.Choose("user"+id, 1+i)]
		var d []byte
		vip := u
		switch kind {
		case 0:
			d = data(abi.MethodNameDexFundStakeForMining, uint8(dex.Stake), amounts[0])
		case 1:
			d = data(abi.MethodNameDexFundStakeForVIP, uint8(dex.Stake))
		case 2:
			d = data(abi.MethodNameDexFundStakeForSVIP, uint8(dex.Stake))
		case 3:
			vip = carol
			d = data(abi.MethodNameDexFundStakeForPrincipalSVIP, carol)
		}
		free := e.actual(u, vite).free
		exists := false
		for _, s := range stakes {
			class := func(k int) int {
				if k == 3 {
					return 2
				}
				return k
			}
			exists = exists || !delayed && kind > 0 && class(s.kind) == class(kind) && s.vip == vip
		}
		_, err := e.ask(u, vite, zero, d)
		sym.Assert((err == nil) == sym.And(!exists, free.Cmp(amounts[kind]) >= 0), "a-stake-is-taken-from-what-is-free")
		if err == nil {
			sym.Assert(len(e.pending) >= 1, "a-stake-goes-to-the-quota-contract")
			p := e.pending[len(e.pending)-1]
			sym.Assert(p.ToAddress == types.AddressQuota && p.TokenId == vite && p.Amount.Cmp(amounts[kind]) == 0, "a-stake-goes-to-the-quota-contract")
			stakes = append(stakes, &stake{user: u, id: p.Hash, amount: amounts[kind], kind: kind, vip: vip})
			sym.Reach("staked")
		}
		if !delayed {
			run()
			check()
		}
	}
	run()
	check()
	for _, s := range stakes {
		info, ok := dex.GetDelegateStakeInfo(e.View(fund), s.id.Bytes())
		sym.Assert(ok && string(info.Address) == string(s.user.Bytes()) && num(info.Amount).Cmp(s.amount) == 0, "a-stake-can-be-found-by-its-owner")
	}
	if len(stakes) == 0 {
		return
	}
	// cancel
	for i := 0; i < sym.Param("cancels", 2); i++ {
		id := string(rune('0' + i))
		if sym.Choose("wait"+id, 2) == 1 {
			e.Advance(e.Latest().Height+100000000, e.Latest().Timestamp.Unix()+100)
		}
		s := stakes[sym.Choose("which"+id, len(stakes))]
		by := e.users[sym.Choose("by"+id, 3-i)]
		_, err := e.ask(by, vite, zero, data(abi.MethodNameDexFundCancelStakeById, s.id))
		sym.Assert((err == nil) == (by == s.user && !s.gone), "only-the-owner-ends-a-stake")
		run()
		if err == nil {
			if e.Account(types.AddressQuota).Value(s.id.Bytes()) == nil {
				s.gone = true
				sym.Reach("cancelled")
				if s.kind == 0 {
					a := e.actual(s.user, vite)
					sym.Assert(a.stake.Cmp(s.amount) >= 0, "a-mining-stake-is-returned-later")
				}
			} else {
				sym.Reach("not-due")
			}
		}
		check()
	}
	if sym.Choose("finish", 2) == 1 {
		e.tomorrow(8)
		before := e.actual(alice, vite)
		at := e.period - 1 - uint64(sym.Choose("early", 2))
		for i := 0; i < 2; i++ {
			err := e.job(trigger, at, dex.FinishCancelMiningStake)
			sym.Assert(err == nil, "periods-are-finished-in-order-and-after-they-ended")
			a := e.actual(alice, vite)
			if at >= e.periods[0]+7 {
				sym.Assert(sym.And(a.stake.Sign() == 0, a.free.Cmp(add(before.free, before.stake)) == 0), "a-mining-stake-is-returned-after-seven-periods")
				sym.Reach("returned")
			} else {
				sym.Assert(sym.And(a.stake.Cmp(before.stake) == 0, a.free.Cmp(before.free) == 0), "a-mining-stake-is-returned-after-seven-periods")
			}
			check()
			e.tomorrow(1)
			at++
		}
	}
}
