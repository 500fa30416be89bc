package dexfund

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

const (
	buy       = false
	sell      = true
	threshold = 1
)

// price is a limit as text and as the exact fraction num/den it stands for.
type price struct {
	text     string
	num, den int64
}

var prices = []price{{"0.5", 1, 2}, {"1.25", 5, 4}, {"3", 3, 1}}

// market opens a market: 0: with users who pay operator fees only (12.5% taking, 25% making), 1: without fees,
// 2: with all fees (base 0.2%, operator 0.8% taking, 0.3% making). It tells the highest rate.
func (e *exchange) market(class int) (*dex.MarketInfo, int32) {
	var taker, maker, top int32 = 12500, 25000, 25000
	stable := class == 1
	if stable {
		top = 0
	}
	if class == 2 {
		taker, maker, top = 800, 300, 1000
	}
	info := &dex.MarketInfo{MarketInfo: dexproto.MarketInfo{MarketId: marketId, MarketSymbol: "A_B", TradeToken: tradeToken.Bytes(), QuoteToken: quoteToken.Bytes(),
		QuoteTokenType: dex.UsdTokenType, TradeTokenDecimals: 6, QuoteTokenDecimals: 6, TakerOperatorFeeRate: taker, MakerOperatorFeeRate: maker, StableMarket: stable,
		AllowMining: true, Valid: true, Owner: owner.Bytes(), Creator: owner.Bytes()}}
	e.setup(fund, func(db interfaces.VmDb) {
		dex.SaveMarketInfo(db, info, tradeToken, quoteToken)
		dex.SaveTokenInfo(db, tradeToken, tokenInfo(tradeToken, 6, false))
		dex.SaveTokenInfo(db, quoteToken, tokenInfo(quoteToken, 6, true))
		dex.SaveTradeThreshold(db, dex.UsdTokenType, big.NewInt(threshold))
	})
	e.setup(trade, func(db interfaces.VmDb) { dex.SaveMarketInfoById(db, info) })
	if class == 0 {
		for _, u := range e.users {
			e.setup(fund, func(db interfaces.VmDb) {
				dex.SaveSuperVIPStaking(db, u, &dex.VIPStaking{VIPStaking: dexproto.VIPStaking{Timestamp: start, StakedTimes: 1}})
			})
		}
	}
	return info, top
}

// near: x is y*n/d to the nearest unit.
func near(x, y *big.Int, n, d int64) bool {
	l := sub(mul(x, 2*d), mul(y, 2*n))
	return sym.And(l.Cmp(big.NewInt(d)) <= 0, l.Cmp(big.NewInt(-d)) >= 0)
}

// sent is an order on its way to the book.
type sent struct {
	user types.Address
	hash types.Hash
	side bool
	x    *dex.Order
}

func placed(b *core.AccountBlock) *dex.Order {
	p := new(dex.ParamSerializedData)
	if err := abi.ABIDexTrade.UnpackMethod(p, abi.MethodNameDexTradePlaceOrder, b.Data); err != nil {
		sym.Assert(false, "an-order-goes-to-the-book")
	}
	o := &dex.Order{}
	if err := o.DeSerialize(p.Data); err != nil {
		sym.Assert(false, "an-order-goes-to-the-book")
	}
	return o
}

// checkPlaced: the accepted order is on its way to the book and what it may spend is locked.
func (e *exchange) checkPlaced(s *core.AccountBlock, user types.Address, side bool, typ uint8, p price, q *big.Int, rate int32) *sent {
	sym.Assert(len(e.out) == 0 && len(e.pending) > 0, "an-order-goes-to-the-book")
	b := e.pending[len(e.pending)-1]
	sym.Assert(b.ToAddress == trade && b.Amount.Sign() == 0, "an-order-goes-to-the-book")
	o := placed(b)
	sym.Assert(sym.And(bytes.Equal(o.Address, user.Bytes()), bytes.Equal(o.SendHash, s.Hash.Bytes()), o.MarketId == marketId, o.Side == side, o.Type == int32(typ), num(o.Quantity).Cmp(q) == 0,
		typ == dex.Market || bytes.Equal(o.Price, dex.PriceToBytes(p.text)), len(o.ExecutedQuantity) == 0, len(o.ExecutedAmount) == 0), "an-order-keeps-its-terms")
	t, lock := quoteToken, q
	if side == sell {
		t = tradeToken
	} else {
		lock = add(num(o.Amount), num(o.LockedBuyFee))
	}
	h := e.hold(user, t)
	if side == buy && typ == dex.Market {
		sym.Assert(lock.Cmp(h.free) == 0, "a-market-order-may-spend-all-that-is-free")
		// what is kept for the fee covers it
		sym.Assert(mul(num(o.LockedBuyFee), 100000).Cmp(sub(mul(num(o.Amount), int64(rate)), big.NewInt(100000))) >= 0, "a-market-order-keeps-its-fee")
	} else if side == buy {
		sym.Assert(near(num(o.Amount), q, p.num, p.den), "an-order-locks-its-price-to-the-nearest-unit")
		sym.Assert(near(num(o.LockedBuyFee), num(o.Amount), int64(rate), 100000), "a-buyer-locks-the-fee-to-the-nearest-unit")
	}
	sym.Assert(lock.Cmp(h.free) <= 0, "an-order-never-locks-more-than-is-free")
	h.free, h.locked = sub(h.free, lock), add(h.locked, lock)
	return &sent{user: user, hash: s.Hash, side: side, x: o}
}

func placeData(side bool, typ uint8, p price, q *big.Int) []byte {
	return data(abi.MethodNameDexFundPlaceOrder, tradeToken, quoteToken, side, typ, p.text, q)
}

// VerifH_Lock: an order is accepted when its owner, or an agent the owner named, placed it and it can be paid;
// it locks exactly what it may spend.
func VerifH_Lock() {
	e := open(builtin.Newest)
	bits := sym.Param("bits", 6)
	class := sym.Choose("class", 3)
	info, rate := e.market(class)
	side := sym.Choose("side", 2) == 1
	typ := uint8(sym.Choose("type", 5))
	p := prices[sym.Choose("price", sym.Param("prices", 2))]
	t := quoteToken
	if side == sell {
		t = tradeToken
	}
	has := sym.Choose("has", 2) == 1
	if has {
		e.stock(alice, t, sym.BigInt("s0", bits))
	}
	e.stock(carol, t, sym.BigInt("s1", bits))
	e.stock(alice, types.TokenTypeId{0x71 + 0x72 - t[0]}, big.NewInt(5))
	q := sym.BigInt("q", bits)
	from, agent := alice, sym.Choose("who", 4)
	stopped := false
	switch sym.Choose("stop", 3) {
	case 1:
		stopped = true
		e.setup(fund, func(db interfaces.VmDb) { dex.SaveDexStopped(db, true) })
	case 2:
		stopped = true
		info.Stopped = true
		e.setup(fund, func(db interfaces.VmDb) { dex.SaveMarketInfo(db, info, tradeToken, quoteToken) })
	}
	d := placeData(side, typ, p, q)
	if agent > 0 {
		from = carol
		d = data(abi.MethodNameDexFundPlaceAgentOrder, alice, tradeToken, quoteToken, side, typ, p.text, q)
		e.setup(fund, func(db interfaces.VmDb) {
			dex.GrantMarketToAgent(db, alice, bob, marketId)
			dex.GrantMarketToAgent(db, alice, carol, marketId+1)
			dex.GrantMarketToAgent(db, carol, alice, marketId)
			if agent > 1 {
				dex.GrantMarketToAgent(db, alice, carol, marketId)
			}
			if agent == 3 {
				dex.RevokeMarketFromAgent(db, alice, carol, marketId)
			}
		})
	}
	allowed := agent == 0 || agent == 2
	s, err := e.ask(from, core.ViteTokenId, zero, d)
	if err != nil {
		sym.Assert(sym.Or(s != nil, q.Sign() == 0), "only-empty-orders-are-refused-at-once")
		if allowed && !stopped && has && q.Sign() > 0 {
			// refused because it is worth nothing or not paid for
			h := e.hold(alice, t)
			if side == sell {
				sym.Assert(sym.Or(q.Cmp(h.free) > 0, sym.And(typ != dex.Market, sub(mul(q, 2*p.num), big.NewInt(2*p.den*threshold)).Sign() < 0)), "a-paid-order-is-accepted")
			} else if typ == dex.Market {
				sym.Assert(h.free.Cmp(big.NewInt(threshold)) < 0, "a-paid-order-is-accepted")
			} else {
				// the price rounded up by at most half a unit, and the fee by at most half
				full := mul(mul(q, p.num), 100000+int64(rate))
				sym.Assert(sym.Or(add(full, big.NewInt(2*100000*p.den)).Cmp(mul(h.free, p.den*100000)) > 0, full.Cmp(big.NewInt(threshold*p.den*100000)) < 0), "a-paid-order-is-accepted")
			}
		}
		sym.Assert(len(e.pending) == 0, "a-refused-order-goes-nowhere")
		sym.Reach("refused")
	} else {
		sym.Assert(!stopped, "no-order-while-stopped")
		sym.Assert(allowed, "only-the-owner-or-a-named-agent-orders")
		sym.Assert(sym.And(q.Sign() > 0, has), "only-a-paid-order-is-accepted")
		e.checkPlaced(s, alice, side, typ, p, q, rate)
		sym.Reach("placed")
	}
	e.asRecorded()
	e.covered()
}

// inBook reads an order of the book.
func (e *exchange) inBook(o *sent) *dex.Order {
	db := e.View(trade)
	id, ok := dex.GetOrderIdByHash(db, o.hash.Bytes())
	if !ok {
		return nil
	}
	m, err := dex.NewMatcher(db, marketId)
	if err != nil {
		panic(err)
	}
	x, err := m.GetOrderById(id)
	if err != nil || x == nil || x.Status != dex.Pending && x.Status != dex.PartialExecuted {
		return nil
	}
	return x
}

// escrow: what is locked for a user is what the user's orders in the book may still spend.
func (e *exchange) escrow(orders []*sent) {
	for _, u := range e.users {
		q, t := new(big.Int), new(big.Int)
		for _, o := range orders {
			if o == nil || o.user != u {
				continue
			}
			x := e.inBook(o)
			if x == nil {
				continue
			}
			if o.side == sell {
				t = add(t, sub(num(x.Quantity), num(x.ExecutedQuantity)))
			} else {
				q = add(q, sub(add(num(x.Amount), num(x.LockedBuyFee)), add(num(x.ExecutedAmount), add(num(x.ExecutedBaseFee), num(x.ExecutedOperatorFee)))))
			}
		}
		sym.Assert(sym.And(e.actual(u, quoteToken).locked.Cmp(q) == 0, e.actual(u, tradeToken).locked.Cmp(t) == 0), "what-is-locked-is-what-open-orders-may-spend")
	}
}

// VerifH_Settle: two users' orders meet while other requests come in between; nothing is created, lost or left locked.
func VerifH_Settle() {
	e := open(builtin.Newest)
	bits := sym.Param("bits", 4)
	class := sym.Choose("class", 3)
	_, rate := e.market(class)
	first := sym.Choose("first", 2) == 1
	p := [2]price{prices[1], prices[sym.Choose("price", sym.Param("prices", 2))]}
	typ := uint8([]int{dex.Limited, dex.Market, dex.ImmediateOrCancel}[sym.Choose("type", sym.Param("types", 2))])
	users := []types.Address{alice, bob}
	if sym.Choose("self", sym.Param("self", 1)) == 1 {
		users[1] = alice
	}
	plenty := big.NewInt(1 << 12)
	if typ == dex.Market {
		plenty = big.NewInt(40)
	}
	if first == sell {
		e.stock(alice, tradeToken, plenty)
		e.stock(users[1], quoteToken, plenty)
	} else {
		e.stock(alice, quoteToken, plenty)
		e.stock(users[1], tradeToken, plenty)
	}
	var orders []*sent
	for i := 0; i < 2; i++ {
		q := sym.BigInt("q"+string(rune('0'+i)), bits)
		if class == 2 {
			q = add(big.NewInt(400), sym.BigInt("r"+string(rune('0'+i)), 2))
		}
		side := first
		k := uint8(dex.Limited)
		if i == 1 {
			side, k = !first, typ
		}
		s, err := e.ask(users[i], core.ViteTokenId, zero, placeData(side, k, p[i], q))
		if err != nil {
			if i == 0 {
				return
			}
			continue
		}
		orders = append(orders, e.checkPlaced(s, users[i], side, k, p[i], q, rate))
		if i == 0 && sym.Choose("early", 2) == 1 {
			sym.Assert(e.step() == nil, "an-order-is-matched")
		}
	}
	e.asRecorded()
	e.covered()
	// someone takes out what is free meanwhile
	when := sym.Choose("when", 3)
	n := 0
	for len(e.pending) > 0 {
		if n == when {
			u := users[1]
			t := quoteToken
			if first == buy {
				t = tradeToken
			}
			had := e.actual(u, t)
			_, err := e.ask(u, core.ViteTokenId, zero, data(abi.MethodNameDexFundWithdraw, t, add(had.free, big.NewInt(1))))
			sym.Assert(err != nil, "what-is-locked-cannot-be-withdrawn")
			if had.free.Sign() > 0 {
				_, err = e.ask(u, core.ViteTokenId, zero, data(abi.MethodNameDexFundWithdraw, t, had.free))
				sym.Assert(err == nil, "what-is-free-can-be-withdrawn")
				sym.Reach("withdrawn-meanwhile")
			}
			e.covered()
		}
		n++
		sym.Assert(e.step() == nil, "an-order-is-matched-and-settled")
		e.covered()
		sym.Assert(n < 8, "settling-ends")
	}
	e.escrow(orders)
	for _, o := range orders {
		if x := e.inBook(o); x != nil {
			sym.Reach("rests")
			d, err := abi.ABIDexTrade.PackMethod(abi.MethodNameDexTradeCancelOrderByTransactionHash, o.hash)
			s, err := e.Send(o.user, trade, core.ViteTokenId, zero, pack(err, d))
			sym.Assert(err == nil, "an-order-can-be-cancelled")
			r, err := e.Receive(s, nil)
			sym.Assert(err == nil, "an-order-can-be-cancelled")
			e.pending = append(e.pending, r.SendBlockList...)
			for len(e.pending) > 0 {
				sym.Assert(e.step() == nil, "a-cancelled-order-is-settled")
			}
			sym.Assert(e.inBook(o) == nil, "a-cancelled-order-leaves-the-book")
		}
	}
	e.escrow(orders)
	e.covered()
	sym.Reach("settled")
}

// VerifH_Cancel: an order is cancelled by its owner or an agent named for its market, by nobody else, and only once.
func VerifH_Cancel() {
	e := open(builtin.Newest)
	bits := sym.Param("bits", 6)
	e.market(0)
	side := sym.Choose("side", 2) == 1
	e.stock(alice, quoteToken, sym.BigInt("s0", bits))
	e.stock(alice, tradeToken, sym.BigInt("s1", bits))
	e.stock(carol, quoteToken, big.NewInt(3))
	q := sym.BigInt("q", bits)
	s, err := e.ask(alice, core.ViteTokenId, zero, placeData(side, dex.Limited, prices[1], q))
	if err != nil {
		return
	}
	o := e.checkPlaced(s, alice, side, dex.Limited, prices[1], q, 25000)
	sym.Assert(e.step() == nil, "an-order-is-matched")
	sym.Assert(len(e.pending) == 0 && e.inBook(o) != nil, "an-order-rests-in-the-book")
	granted := sym.Choose("granted", 2) == 1
	e.setup(fund, func(db interfaces.VmDb) {
		dex.GrantMarketToAgent(db, carol, alice, marketId)
		dex.GrantMarketToAgent(db, alice, carol, marketId+1)
		if granted {
			dex.GrantMarketToAgent(db, alice, carol, marketId)
		}
	})
	way := sym.Choose("way", 7)
	ok := false
	switch way {
	case 0: // the owner, by the fund contract
		_, err = e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundCancelOrderBySendHash, o.hash, types.Address{}, tradeToken, quoteToken))
		ok = true
	case 1: // an agent
		_, err = e.ask(carol, core.ViteTokenId, zero, data(abi.MethodNameDexFundCancelOrderBySendHash, o.hash, alice, tradeToken, quoteToken))
		ok = granted
	case 2: // a stranger, as if it were theirs
		_, err = e.ask(carol, core.ViteTokenId, zero, data(abi.MethodNameDexFundCancelOrderBySendHash, o.hash, types.Address{}, tradeToken, quoteToken))
	case 3: // the book, by hash
		from := []types.Address{alice, carol}[sym.Choose("by", 2)]
		ok = from == alice
		d, perr := abi.ABIDexTrade.PackMethod(abi.MethodNameDexTradeCancelOrderByTransactionHash, o.hash)
		err = e.direct(from, pack(perr, d))
	case 4: // the book, by id
		from := []types.Address{alice, carol}[sym.Choose("by", 2)]
		ok = from == alice
		d, perr := abi.ABIDexTrade.PackMethod(abi.MethodNameDexTradeCancelOrderV2, o.x.Id)
		err = e.direct(from, pack(perr, d))
	case 5: // a user in the fund contract's place
		from := []types.Address{alice, carol}[sym.Choose("by", 2)]
		d, perr := abi.ABIDexTrade.PackMethod(abi.MethodNameDexTradeInnerCancelOrderBySendHash, o.hash, alice)
		err = e.direct(from, pack(perr, d))
		sym.Assert(err != nil, "only-the-contracts-speak-for-each-other")
	case 6: // a user in the book's place
		from := []types.Address{alice, carol}[sym.Choose("by", 2)]
		err = e.forge(from)
		sym.Assert(err != nil, "only-the-contracts-speak-for-each-other")
	}
	for err == nil && len(e.pending) > 0 {
		err = e.step()
	}
	e.pending = nil
	h := e.hold(alice, quoteToken)
	if side == sell {
		h = e.hold(alice, tradeToken)
	}
	if ok {
		sym.Assert(err == nil, "an-order-can-be-cancelled-by-its-owner-or-an-agent")
		sym.Assert(e.inBook(o) == nil, "a-cancelled-order-leaves-the-book")
		h.free, h.locked = add(h.free, h.locked), new(big.Int)
		sym.Reach("cancelled")
	} else {
		sym.Assert(err != nil, "nobody-else-cancels-an-order")
		sym.Assert(e.inBook(o) != nil, "an-order-others-tried-to-cancel-stays")
		sym.Reach("refused")
	}
	e.asRecorded()
	e.covered()
	e.escrow([]*sent{o})
	if ok {
		// once is enough
		d, perr := abi.ABIDexTrade.PackMethod(abi.MethodNameDexTradeCancelOrderV2, o.x.Id)
		err = e.direct(alice, pack(perr, d))
		sym.Assert(err != nil && len(e.pending) == 0, "an-order-is-cancelled-once")
		_, err = e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundCancelOrderBySendHash, o.hash, types.Address{}, tradeToken, quoteToken))
		sym.Assert(err == nil && len(e.pending) == 1 && e.step() != nil && len(e.pending) == 0, "an-order-is-cancelled-once")
		e.asRecorded()
		e.covered()
	}
}

// direct sends a request to the book.
func (e *exchange) direct(from types.Address, d []byte) error {
	s, err := e.Send(from, trade, core.ViteTokenId, zero, d)
	if err != nil {
		return err
	}
	r, err := e.Receive(s, nil)
	if err != nil {
		return err
	}
	e.pending = append(e.pending, r.SendBlockList...)
	return nil
}

// forge claims a settlement in the sender's favour.
func (e *exchange) forge(from types.Address) error {
	a := &dexproto.SettleActions{TradeToken: tradeToken.Bytes(), QuoteToken: quoteToken.Bytes(), FundActions: []*dexproto.FundSettle{{Address: from.Bytes(),
		AccountSettles: []*dexproto.AccountSettle{{IsTradeToken: true, IncAvailable: []byte{5}}}}}}
	b := marshal(a)
	_, err := e.ask(from, core.ViteTokenId, zero, data(abi.MethodNameDexFundSettleOrdersV2, b))
	return err
}

// VerifH_Agents: exactly those agents may act for a user in a market whom that user named for it and did not dismiss since.
func VerifH_Agents() {
	e := open(builtin.Newest)
	info, _ := e.market(1)
	other := &dex.MarketInfo{MarketInfo: info.MarketInfo}
	other.MarketId, other.TradeToken, other.QuoteToken = marketId+1, quoteToken.Bytes(), tradeToken.Bytes()
	e.setup(fund, func(db interfaces.VmDb) { dex.SaveMarketInfo(db, other, quoteToken, tradeToken) })
	agents := []types.Address{{0xe1}, {0xe2}, {0xe3}}
	var named [2][2][3]bool // by user, market, agent
	for i := 0; i < sym.Param("start", 3); i++ {
		if sym.Choose("named"+string(rune('0'+i)), 2) == 1 {
			named[0][0][i] = true
			if _, err := e.ask(alice, core.ViteTokenId, zero, data(abi.MethodNameDexFundConfigMarketsAgent, uint8(dex.GrantAgent), agents[i], []types.TokenTypeId{tradeToken}, []types.TokenTypeId{quoteToken})); err != nil {
				panic(err)
			}
		}
	}
	for i := 0; i < sym.Param("steps", 2); i++ {
		id := string(rune('0' + i))
		grant := sym.Choose("grant"+id, 2) == 1
		u, a, m := sym.Choose("user"+id, 2), sym.Choose("agent"+id, 3), sym.Choose("markets"+id, 3)
		action := uint8(dex.RevokeAgent)
		if grant {
			action = dex.GrantAgent
		}
		ts, qs := []types.TokenTypeId{tradeToken, quoteToken}, []types.TokenTypeId{quoteToken, tradeToken}
		if m < 2 {
			ts, qs = ts[m:m+1], qs[m:m+1]
		}
		_, err := e.ask(e.users[u], core.ViteTokenId, zero, data(abi.MethodNameDexFundConfigMarketsAgent, action, agents[a], ts, qs))
		sym.Assert(err == nil, "agents-can-be-named-and-dismissed")
		for k := 0; k < 2; k++ {
			if m == 2 || m == k {
				named[u][k][a] = grant
			}
		}
		db := e.View(fund)
		for x := range named {
			for y := range named[x] {
				for z := range named[x][y] {
					sym.Assert(dex.IsMarketGrantedToAgent(db, e.users[x], agents[z], int32(marketId+y)) == named[x][y][z], "agents-are-those-named-and-not-dismissed")
				}
			}
		}
		sym.Reach("agents")
	}
}
