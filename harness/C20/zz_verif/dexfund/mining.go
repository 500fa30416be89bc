package dexfund

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// mined is the VX not yet handed out: the pool and what is set aside for makers.
func (e *exchange) mined() *big.Int {
	db := e.View(fund)
	r := dex.GetVxMinePool(db)
	for _, p := range e.periods {
		r = add(r, dex.GetMakerMiningPoolByPeriodId(db, p))
	}
	return r
}

// VerifH_Mining: VX given out to traders, stakers, makers and the maintainer comes out of the pool, coin by coin,
// once a period, and to each by their part.
func VerifH_Mining() {
	e := open(builtin.Newest)
	vx := dex.VxTokenId
	e.tokens = []types.TokenTypeId{vx}
	keeper, maker := types.Address{0x51}, types.Address{0x52}
	e.users = append(e.users, keeper)
	bits := sym.Param("bits", 6)
	which := sym.Choose("job", 3)
	biz := []uint8{dex.MineVxForFeeJob, dex.MineVxForStakingJob, dex.MineVxForMakerAndMaintainerJob}[which]
	// of 10000 coins in a period half is for trading, a tenth for staking, the rest for makers and the maintainer
	most := []int64{5000, 1000, 4000}[which]
	// The pool: plenty, a little more than what the period takes, less, nothing.
	base := []int64{1000000, most + 50, most - 100, 0}[sym.Choose("pool", sym.Param("pools", 4))]
	pool := mul(coin, base)
	petty := sym.Choose("small", 2) == 1
	if base > 0 && !petty {
		pool = add(pool, new(big.Int).Mul(coin, sym.BigInt("more", bits)))
	}
	// what two traders and two stakers did
	parts := [][3]int64{{1, 3, 4}, {1, 3, 0}, {4, 0, 0}, {0, 0, 0}}[sym.Choose("parts", 4)]
	total := parts[0] + parts[1] + parts[2]
	bonus := int64(0)
	if parts[1] > 0 && which == 0 && sym.Choose("bonus", 2) == 1 {
		bonus = total
	}
	small := types.Address{0x11}
	unit := dex.QuoteTokenTypeInfos[dex.UsdTokenType].DefaultMineThreshold
	staked := mul(coin, 134)
	e.setup(fund, func(db interfaces.VmDb) {
		if !petty {
			return
		}
		if err := dex.OnMiningStakeSuccessV2(db, reader{}, small, mul(coin, 200), mul(coin, 200)); err != nil {
			panic(err)
		}
	})
	e.tomorrow(1)
	e.setup(fund, func(db interfaces.VmDb) {
		dex.SaveMaintainer(db, keeper)
		dex.SaveMakerMiningAdmin(db, maker)
		dex.SaveVxMinePool(db, pool)
		f, _ := dex.GetDexFeesByPeriodId(db, e.period)
		if total > 0 {
			f.FeesForMine = []*dexproto.FeeForMine{{QuoteTokenType: dex.UsdTokenType, BaseAmount: mul(unit, total).Bytes(), InviteBonusAmount: mul(unit, bonus).Bytes()}}
		}
		dex.SaveDexFeesByPeriodId(db, e.period, f)
		for i, u := range e.users[:3] {
			if parts[i] == 0 {
				continue
			}
			x := &dexproto.FeeAccount{QuoteTokenType: dex.UsdTokenType, BaseAmount: mul(unit, parts[i]).Bytes()}
			if i == 1 && bonus > 0 {
				x.InviteBonusAmount = mul(unit, bonus).Bytes()
			}
			fees := &dex.UserFees{}
			fees.Fees = []*dexproto.FeesByPeriod{{Period: e.period, Fees: []*dexproto.FeeAccount{x}}}
			dex.SaveUserFees(db, u.Bytes(), fees)
			if err := dex.OnMiningStakeSuccessV2(db, reader{}, u, mul(staked, parts[i]), mul(staked, parts[i])); err != nil {
				panic(err)
			}
		}
		if !petty {
			return
		}
		// someone whose fees and stake are too small to count
		fees := &dex.UserFees{}
		fees.Fees = []*dexproto.FeesByPeriod{{Period: e.period, Fees: []*dexproto.FeeAccount{{QuoteTokenType: dex.UsdTokenType, BaseAmount: sub(unit, big.NewInt(1)).Bytes()}}}}
		dex.SaveUserFees(db, small.Bytes(), fees)
		if err := dex.OnCancelMiningStakeSuccessV2(db, reader{}, small, mul(coin, 140), mul(coin, 60)); err != nil {
			panic(err)
		}
	})
	e.give(fund, vx, pool)
	auto := sym.Choose("lock", 2) == 1
	if auto {
		_, err := e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundSwitchConfig, uint8(dex.AutoLockMinedVx), true))
		sym.Assert(err == nil, "a-user-may-have-mined-coins-locked")
	}
	first := e.period
	e.tomorrow(1)
	credit := func(want []*big.Int) {
		for i, u := range e.users {
			h := e.hold(u, vx)
			w := want[i]
			if u == alice && auto {
				h.vx = add(h.vx, w)
			} else {
				h.free = add(h.free, w)
			}
		}
	}
	check := func() {
		e.asRecorded()
		owed := e.mined()
		for _, u := range e.users {
			owed = add(owed, e.actual(u, vx).sum())
		}
		sym.Assert(owed.Cmp(e.Account(fund).Balance(vx)) == 0, "every-deposit-is-covered")
		sym.Assert(len(e.out) == 0 && len(e.pending) == 0, "mining-pays-nobody-outside")
	}
	check()
	for i := 0; i < 2; i++ {
		by := trigger
		if i == 0 && sym.Choose("by", 2) == 1 {
			by = alice
		}
		before := dex.GetVxMinePool(e.View(fund))
		had := make([]part, len(e.users))
		for k, u := range e.users {
			had[k] = e.actual(u, vx)
		}
		err := e.job(by, first, biz)
		sym.Assert((err == nil) == (by == trigger && i == 0 && before.Sign() > 0), "a-period-is-mined-once-and-from-the-pool")
		if err != nil {
			check()
			if by != trigger {
				return
			}
			continue
		}
		take := mul(coin, most)
		if before.Cmp(take) < 0 {
			take = before
		}
		left := sub(before, take)
		emptied := left.Cmp(mul(coin, 100)) <= 0
		got := make([]*big.Int, len(e.users))
		for k, u := range e.users {
			got[k] = sub(e.actual(u, vx).sum(), had[k].sum())
			sym.Assert(got[k].Sign() >= 0, "mining-takes-from-nobody")
		}
		total, of := total, parts
		switch which {
		case 0: // a quarter for each kind of market; only one kind was traded in
			take = new(big.Int).Rsh(take, 2)
			total, of[1] = total+bonus, of[1]+bonus
		case 1:
			if emptied {
				take = before
			}
		}
		if which == 2 {
			eighth := new(big.Int).Rsh(take, 3)
			kept := dex.GetMakerMiningPoolByPeriodId(e.View(fund), first)
			sym.Assert(got[3].Cmp(mul(eighth, 5)) == 0, "the-maintainer-gets-its-part")
			rest := mul(eighth, 3)
			if emptied {
				rest = sub(before, got[3])
			}
			sym.Assert(kept.Cmp(rest) == 0, "the-makers-part-is-set-aside")
			sym.Assert(sym.And(got[0].Sign() == 0, got[1].Sign() == 0, got[2].Sign() == 0), "mined-coins-go-to-whom-they-are-for")
			take = add(got[3], kept)
		} else {
			sym.Assert(got[3].Sign() == 0, "mined-coins-go-to-whom-they-are-for")
			if total == 0 {
				take = new(big.Int)
				sym.Reach("nobody")
			}
			sym.Assert(add(add(got[0], got[1]), got[2]).Cmp(take) == 0, "all-that-is-mined-is-handed-out")
			for k, p := range of {
				d := sub(mul(got[k], total), mul(take, p))
				sym.Assert(sym.And(d.Cmp(big.NewInt(2*total)) <= 0, d.Cmp(big.NewInt(-2*total)) >= 0), "mined-coins-are-shared-by-what-was-done")
			}
		}
		sym.Assert(add(dex.GetVxMinePool(e.View(fund)), take).Cmp(before) == 0, "mined-coins-come-out-of-the-pool")
		credit(got)
		check()
		sym.Reach("mined")
		a := e.actual(small, vx)
		sym.Assert(a.sum().Sign() == 0, "mined-coins-go-to-whom-they-are-for")
		_, again := dex.GetUserFees(e.View(fund), alice.Bytes())
		sym.Assert(which != 0 || parts[0] == 0 || !again, "fees-count-once")
	}
}

// VerifH_Makers: what is set aside for makers is paid as their administrator says, and no more than was set aside;
// what is locked for a user that way counts when fees are shared.
func VerifH_Makers() {
	e := open(builtin.Newest)
	vx := dex.VxTokenId
	e.tokens = []types.TokenTypeId{vx, quoteToken}
	maker := types.Address{0x52}
	set := add([]*big.Int{mul(coin, 40), mul(coin, 8)}[sym.Choose("set", 2)], sym.BigInt("set", 8))
	locked := func() int64 {
		if v := e.hold(alice, vx).vx; v.Cmp(mul(coin, 10)) >= 0 {
			return new(big.Int).Div(v, coin).Int64()
		}
		return 0
	}
	fees := big.NewInt(640000)
	e.give(fund, vx, set)
	e.give(fund, quoteToken, fees)
	e.stock(bob, vx, mul(coin, 100))
	if _, err := e.ask(bob, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, uint8(dex.LockVx), mul(coin, 48))); err != nil {
		panic(err)
	}
	h := e.hold(bob, vx)
	h.free, h.vx = mul(coin, 52), mul(coin, 48)
	auto := sym.Choose("lock", 2) == 1
	had := 0
	if auto {
		had = sym.Choose("had", 3)
	}
	if had > 0 { // what was locked before and is not any more
		e.stock(alice, vx, mul(coin, 16))
		for _, what := range []uint8{dex.LockVx, dex.UnlockVx} {
			if _, err := e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundLockVxForDividend, what, mul(coin, 16))); err != nil {
				panic(err)
			}
			if what == dex.LockVx || had == 1 {
				e.tomorrow(1)
			}
		}
		h := e.hold(alice, vx)
		h.free, h.vxLeaving = new(big.Int), mul(coin, 16)
	}
	if auto {
		if _, err := e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundSwitchConfig, uint8(dex.AutoLockMinedVx), true)); err != nil {
			panic(err)
		}
	}
	e.setup(fund, func(db interfaces.VmDb) {
		dex.SaveMakerMiningAdmin(db, maker)
		dex.SaveMakerMiningPoolByPeriodId(db, e.period, set)
		f, _ := dex.GetDexFeesByPeriodId(db, e.period)
		f.FeesForDividend = []*dexproto.FeeForDividend{{Token: quoteToken.Bytes(), DividendPoolAmount: fees.Bytes()}}
		dex.SaveDexFeesByPeriodId(db, e.period, f)
	})
	first := e.period
	share := int64(0)
	steps := sym.Param("steps", 2)
	for i := 0; i < steps; i++ {
		id := string(rune('0' + i))
		if i == 1 && sym.Choose("day", 2) == 1 {
			e.tomorrow(1)
		}
		n := []int64{4, 12, 16}[sym.Choose("amount"+id, 3)]
		by, period, page := maker, first, int32(1+i)
		switch sym.Choose("odd"+id, 3+i) {
		case 1:
			by = bob
		case 2:
			period++
		case 3:
			page--
		}
		more := new(big.Int).Mul(coin, sym.BigInt("more"+id, 3))
		a := &dexproto.VxSettleActions{Period: period, Page: page, Actions: []*dexproto.VxSettleAction{{Address: alice.Bytes(), Amount: mul(coin, n).Bytes()}, {Address: carol.Bytes(), Amount: more.Bytes()}}}
		kept := dex.GetMakerMiningPoolByPeriodId(e.View(fund), first)
		last := dex.GetLastSettledMakerMinedVxPage(e.View(fund))
		_, err := e.ask(by, core.ViteTokenId, zero, data(abi.MethodNameDexFundSettleMakerMinedVx, marshal(a)))
		sym.Assert((err == nil) == (by == maker && period == first && kept.Sign() > 0 && (last == 0 || page == last+1)), "makers-are-paid-as-their-administrator-says")
		if err == nil {
			x, y := mul(coin, n), more
			if x.Cmp(kept) > 0 {
				x.Set(kept)
			}
			if y.Cmp(sub(kept, x)) > 0 {
				y = sub(kept, x)
			}
			if h := e.hold(alice, vx); auto {
				h.vx = add(h.vx, x)
			} else {
				h.free = add(h.free, x)
			}
			c := e.hold(carol, vx)
			c.free = add(c.free, y)
			sym.Reach("paid")
		}
		e.asRecorded()
		owed := e.mined()
		for _, u := range e.users {
			owed = add(owed, e.actual(u, vx).sum())
		}
		sym.Assert(owed.Cmp(e.Account(fund).Balance(vx)) == 0, "every-deposit-is-covered")
		if e.period == first || i == 0 {
			share = locked()
		}
	}
	if e.period == first {
		e.tomorrow(1)
	}
	// fees are shared by what was locked at the end of each period
	for k := uint64(0); k < 2; k++ {
		if k == 1 {
			share = locked()
			e.tomorrow(1)
		}
		before := []*big.Int{e.actual(alice, quoteToken).free, e.actual(bob, quoteToken).free}
		if err := e.job(trigger, first+k, dex.FeeDividendJob); err != nil {
			panic(err)
		}
		ga, gb := sub(e.actual(alice, quoteToken).free, before[0]), sub(e.actual(bob, quoteToken).free, before[1])
		d := sub(mul(ga, 48), mul(gb, share))
		sym.Assert(sym.And(gb.Sign() > 0, d.Cmp(big.NewInt(100)) <= 0, d.Cmp(big.NewInt(-100)) >= 0), "dividends-are-shared-by-what-is-locked")
		all := big.NewInt(6400)
		if k == 1 {
			all = num(dex.CalculateAmountForRate(big.NewInt(633600).Bytes(), dex.PerPeriodDividendRate))
		}
		sym.Assert(add(ga, gb).Cmp(all) == 0, "all-of-a-dividend-is-handed-out")
		sym.Reach("dividend")
	}
}
