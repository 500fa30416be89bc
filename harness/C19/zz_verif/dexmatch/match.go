// Package dexmatch checks the order book of the exchange against a plain record of its orders.
package dexmatch

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	ccore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

const (
	marketId = 7
	start    = int64(1700000000)
	buy      = false
	sell     = true
)

// price is a limit as text and as the exact fraction num/den it stands for.
type price struct {
	text     string
	num, den int64
}

var (
	tradeToken = types.TokenTypeId{0x71}
	quoteToken = core.ViteTokenId
	prices     = []price{{"0.5", 1, 2}, {"1.25", 5, 4}, {"3", 3, 1}, {"0.3", 3, 10}}
	owner      = types.Address{0x19}
	rates      = [][4]int32{{25000, 12500, 12500, 25000}, {0, 0, 0, 0}, {200, 100, 200, 50}}
)

type reader struct{}

func (reader) GetIndexByStartTime(t, g int64) (uint64, int64, bool) { return 0, 0, false }
func (reader) GetIndexByEndTime(t, g int64) (uint64, int64, bool)   { return 0, 0, false }
func (reader) GetIndexByTime(t, g int64) uint64                     { return uint64(t) / 86400 }
func (reader) GetEndTimeByIndex(i uint64) int64                     { return int64(i) * 86400 }
func (reader) GetConsensusDetailByDay(s, e uint64) ([]*ccore.DayStats, error) {
	return nil, nil
}

// order is what is known of one order.
type order struct {
	id      []byte
	addr    types.Address
	side    bool
	typ     int
	price   price
	rank    int
	q       *big.Int // wanted
	a, fee  *big.Int // paid into escrow by a buyer
	xq, xa  *big.Int // executed
	xb, xo  *big.Int // fees paid
	rates   [4]int32 // taker, taker operator, maker, maker operator
	open    bool
	changed bool
	partial bool
	hash    types.Hash
}

type settle struct{ inc, reduce, release *big.Int }

type market struct {
	w       *builtin.World
	db      interfaces.VmDb // of the trade contract
	fund    interfaces.VmDb
	info    *dex.MarketInfo
	orders  []*order
	logs    int
	mul     *big.Int // quote units per trade unit at price 1, as mul/div
	div     *big.Int
	settles map[types.Address]map[bool]*settle
	fees    map[types.Address][2]*big.Int
}

func num(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func open(height uint64, tradeDecimals, quoteDecimals int32) *market {
	w := builtin.New(height, start)
	m := &market{w: w, db: w.DB(types.AddressDexTrade), fund: w.DB(types.AddressDexFund)}
	m.info = &dex.MarketInfo{MarketInfo: dexproto.MarketInfo{MarketId: marketId, MarketSymbol: "A_B", TradeToken: tradeToken.Bytes(), QuoteToken: quoteToken.Bytes(),
		QuoteTokenType: dex.ViteTokenType, TradeTokenDecimals: tradeDecimals, QuoteTokenDecimals: quoteDecimals, Valid: true, Owner: owner.Bytes(), Creator: owner.Bytes()}}
	m.mul, m.div = big.NewInt(1), big.NewInt(1)
	for d := tradeDecimals; d < quoteDecimals; d++ {
		m.mul.Mul(m.mul, big.NewInt(10))
	}
	for d := quoteDecimals; d < tradeDecimals; d++ {
		m.div.Mul(m.div, big.NewInt(10))
	}
	if err := dex.SetDexTimestamp(m.fund, start, reader{}); err != nil {
		panic(err)
	}
	return m
}

// worth compares: sign of (amount of quote units) - (quantity at a price), scaled by den, and the scaled distance.
func (m *market) diff(amount, quantity *big.Int, p price) *big.Int {
	l := new(big.Int).Mul(amount, m.div)
	l.Mul(l, big.NewInt(2*p.den))
	r := new(big.Int).Mul(quantity, m.mul)
	r.Mul(r, big.NewInt(2*p.num))
	return l.Sub(l, r)
}

// rounded: amount is the quantity's price to the nearest unit.
func (m *market) rounded(amount, quantity *big.Int, p price) bool {
	d := m.diff(amount, quantity, p)
	h := new(big.Int).Mul(m.div, big.NewInt(p.den))
	return sym.And(d.Cmp(h) <= 0, d.Cmp(new(big.Int).Neg(h)) >= 0)
}

// dust: the quantity is worth less than one unit (not more, if it is one unit exactly and loose).
func (m *market) dust(quantity *big.Int, p price, loose bool) bool {
	c := m.diff(big.NewInt(1), quantity, p).Sign()
	return c > 0 || loose && c == 0 && p.den%5 == 0
}

// fee: x is the given share of an amount to the nearest unit.
func share(x, amount *big.Int, rate int32) bool {
	d := new(big.Int).Mul(x, big.NewInt(200000))
	d.Sub(d, new(big.Int).Mul(amount, big.NewInt(2*int64(rate))))
	return sym.And(d.Cmp(big.NewInt(100000)) <= 0, d.Cmp(big.NewInt(-100000)) >= 0)
}

func (m *market) settle(a types.Address, trade bool) *settle {
	if m.settles[a] == nil {
		m.settles[a] = map[bool]*settle{}
	}
	if m.settles[a][trade] == nil {
		m.settles[a][trade] = &settle{new(big.Int), new(big.Int), new(big.Int)}
	}
	return m.settles[a][trade]
}

func (m *market) charge(a types.Address, base, operator *big.Int) {
	f, ok := m.fees[a]
	if !ok {
		f = [2]*big.Int{new(big.Int), new(big.Int)}
		m.fees[a] = f
	}
	f[0].Add(f[0], base)
	f[1].Add(f[1], operator)
}

// newOrder makes an order as the fund contract does when it has locked what the order may spend.
func (m *market) newOrder(n int, addr types.Address, side bool, typ int, rank int, q *big.Int, rates [4]int32) (*order, *dex.Order) {
	o := &order{addr: addr, side: side, typ: typ, price: prices[rank], q: q, rates: rates, a: new(big.Int), fee: new(big.Int), xq: new(big.Int), xa: new(big.Int), xb: new(big.Int), xo: new(big.Int), hash: types.Hash{0x99, 31: byte(n)}}
	p := o.price.text
	o.id = dex.ComposeOrderId(m.fund, marketId, side, p)
	x := &dex.Order{Order: dexproto.Order{Id: append([]byte{}, o.id...), Address: addr.Bytes(), MarketId: marketId, Side: side, Type: int32(typ), Price: dex.PriceToBytes(p),
		TakerFeeRate: rates[0], TakerOperatorFeeRate: rates[1], MakerFeeRate: rates[2], MakerOperatorFeeRate: rates[3], Quantity: q.Bytes(), Status: dex.Pending,
		Timestamp: dex.GetTimestampInt64(m.fund), SendHash: o.hash.Bytes()}}
	if typ == dex.Market {
		x.MarketOrderAmtThreshold = big.NewInt(1 << 40).Bytes()
	}
	if typ != dex.Market {
		x.Amount = dex.CalculateRawAmount(x.Quantity, x.Price, m.info.TradeTokenDecimals-m.info.QuoteTokenDecimals)
		sym.Assert(m.rounded(num(x.Amount), q, o.price), "an-order-locks-its-price-to-the-nearest-unit")
		if side == buy {
			x.LockedBuyFee = dex.CalculateAmountForRate(x.Amount, dex.MaxTotalFeeRate(*x))
			t := rates[0] + rates[1]
			if mk := rates[2] + rates[3]; mk > t {
				t = mk
			}
			sym.Assert(share(num(x.LockedBuyFee), num(x.Amount), t), "a-buyer-locks-the-fee-to-the-nearest-unit")
		}
	}
	o.a, o.fee = num(x.Amount), num(x.LockedBuyFee)
	return o, x
}

func min2(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// before: a comes before b among the orders of one side.
func better(a, b *order) bool {
	c := a.price.num*b.price.den - b.price.num*a.price.den
	if c == 0 {
		return false
	}
	return (c < 0) == (a.side == sell)
}

// queue lists the open orders of a side, best price first, then oldest first.
func (m *market) queue(side bool) []*order {
	var r []*order
	for _, o := range m.orders {
		if !o.open || o.side != side {
			continue
		}
		i := len(r)
		for i > 0 && better(o, r[i-1]) {
			i--
		}
		r = append(r[:i], append([]*order{o}, r[i:]...)...)
	}
	return r
}

func accepts(taker, maker *order) bool {
	if taker.typ == dex.Market {
		return true
	}
	c := maker.price.num*taker.price.den - taker.price.num*maker.price.den
	if taker.side == buy {
		return c <= 0
	}
	return c >= 0
}

func (o *order) left() *big.Int { return new(big.Int).Sub(o.q, o.xq) }

// spent: nothing worthwhile is left of an order.
func (m *market) spent(o *order, loose bool, last price) bool {
	l := o.left()
	if l.Sign() == 0 {
		return true
	}
	if o.typ == dex.Market {
		if o.side == sell {
			return false
		}
		return sym.Or(o.xa.Cmp(o.a) == 0, m.diff(new(big.Int).Sub(o.a, o.xa), big.NewInt(1), last).Sign() < 0)
	}
	return m.dust(l, o.price, loose)
}

// close settles what is left in escrow.
func (m *market) close(o *order) {
	if o.side == buy {
		l := new(big.Int).Add(o.a, o.fee)
		l.Sub(l, o.xa)
		l.Sub(l, new(big.Int).Add(o.xb, o.xo))
		sym.Assert(l.Sign() >= 0, "a-buyer-never-pays-more-than-is-locked")
		s := m.settle(o.addr, false)
		s.release.Add(s.release, l)
	} else {
		l := o.left()
		sym.Assert(l.Sign() >= 0, "a-seller-never-gives-more-than-is-locked")
		s := m.settle(o.addr, true)
		s.release.Add(s.release, l)
	}
	o.open = false
}

// checkFees: a trade's fees are the rates' shares of its amount, except that a buyer's fees end where the locked fee ends.
func checkFees(o *order, amount, base, operator *big.Int, rb, ro int32) {
	if o.side == sell {
		if rb == 0 && ro == 0 {
			sym.Assert(base.Sign() == 0 && operator.Sign() == 0, "no-fee-above-its-rate")
			return
		}
		sym.Assert(sym.And(share(base, amount, rb), share(operator, amount, ro)), "a-seller-pays-the-fee-rates")
		return
	}
	room := new(big.Int).Sub(o.fee, new(big.Int).Add(o.xb, o.xo))
	all := new(big.Int).Add(base, operator)
	if rb == 0 && ro == 0 {
		sym.Assert(all.Sign() == 0, "no-fee-above-its-rate")
		return
	}
	full := all.Cmp(room) == 0
	sym.Assert(sym.And(all.Cmp(room) <= 0, sym.Or(full, sym.And(share(base, amount, rb), share(operator, amount, ro)))), "a-buyer-pays-the-fee-rates-while-the-locked-fee-lasts")
	half := func(x *big.Int, r int32) bool { // never more than the rate
		d := new(big.Int).Sub(new(big.Int).Mul(x, big.NewInt(200000)), new(big.Int).Mul(amount, big.NewInt(2*int64(r))))
		return d.Cmp(big.NewInt(100000)) <= 0
	}
	sym.Assert(sym.And(half(base, rb), half(operator, ro)), "no-fee-above-its-rate")
}

// place matches an order and compares everything that happened with the record.
func (m *market) place(o *order, x *dex.Order) {
	m.settles, m.fees = map[types.Address]map[bool]*settle{}, map[types.Address][2]*big.Int{}
	q := m.queue(!o.side)
	for _, p := range m.orders {
		p.changed = false
	}
	mc := dex.NewMatcherWithMarketInfo(m.db, m.info)
	err := mc.MatchOrder(x, types.Hash{0xff})
	sym.Assert(err == nil, "an-order-is-matched")
	m.orders = append(m.orders, o)
	var trades []*dex.TransactionEvent
	logs := m.db.GetLogList()
	for _, l := range logs[m.logs:] {
		t := &dex.TransactionEvent{}
		if len(l.Topics) == 1 && l.Topics[0] == t.GetTopicId() {
			sym.Assert(t.FromBytes(l.Data) == nil, "trades-are-readable")
			trades = append(trades, t)
		}
	}
	m.logs = len(logs)
	if o.typ == dex.PostOnly {
		cross := len(q) > 0 && accepts(o, q[0])
		sym.Assert(len(trades) == 0, "a-post-only-order-never-takes")
		o.open = !cross
		if cross {
			m.close(o)
			sym.Reach("post-only-refused")
		}
		m.compare(mc, o, x)
		return
	}
	if o.typ == dex.FillOrKill && len(trades) == 0 {
		sym.Assert(!m.fillable(o, q), "a-fillable-order-is-filled")
		m.close(o)
		sym.Reach("killed")
		m.compare(mc, o, x)
		return
	}
	sym.Assert(len(trades) <= len(q), "no-order-trades-twice")
	var last price
	for i, t := range trades {
		k := q[i]
		sym.Assert(sym.And(bytes.Equal(t.MakerId, k.id), bytes.Equal(t.TakerId, o.id), t.TakerSide == o.side), "best-price-first-then-oldest")
		sym.Assert(accepts(o, k), "no-trade-beyond-a-limit")
		sym.Assert(bytes.Equal(t.Price, dex.PriceToBytes(k.price.text)), "a-trade-is-at-the-standing-orders-price")
		sym.Assert(i == 0 || !m.spent(o, false, last), "a-satisfied-order-stops-trading")
		b, s := o, k
		if o.side == sell {
			b, s = k, o
		}
		tq, ta := num(t.Quantity), num(t.Amount)
		want := min2(o.left(), k.left())
		room := new(big.Int).Sub(b.a, b.xa)
		if o.typ == dex.Market && o.side == buy {
			// as much as the money left buys
			sym.Assert(sym.And(tq.Cmp(want) <= 0, m.diff(room, tq, k.price).Sign() >= 0), "a-market-order-buys-what-it-can-pay")
			sym.Assert(sym.Or(tq.Cmp(want) == 0, m.diff(room, new(big.Int).Add(tq, big.NewInt(1)), k.price).Sign() < 0), "a-market-order-buys-all-it-can-pay")
		} else {
			sym.Assert(tq.Cmp(want) == 0, "a-trade-takes-all-that-both-want")
		}
		sym.Assert(ta.Cmp(room) <= 0, "a-buyer-never-pays-more-than-is-locked")
		sym.Assert(sym.Or(m.rounded(ta, tq, k.price), sym.And(ta.Cmp(room) == 0, m.diff(ta, tq, k.price).Sign() < 0)), "a-trades-amount-is-its-price-to-the-nearest-unit")
		tb, to, mb, mo := num(t.TakerFee), num(t.TakerOperatorFee), num(t.MakerFee), num(t.MakerOperatorFee)
		checkFees(o, ta, tb, to, o.rates[0], o.rates[1])
		checkFees(k, ta, mb, mo, k.rates[2], k.rates[3])
		for j, y := range []*order{o, k} {
			fb, fo := tb, to
			if j == 1 {
				fb, fo = mb, mo
			}
			y.xq, y.xa = new(big.Int).Add(y.xq, tq), new(big.Int).Add(y.xa, ta)
			y.xb, y.xo = new(big.Int).Add(y.xb, fb), new(big.Int).Add(y.xo, fo)
			y.changed, y.partial = true, true
			m.charge(y.addr, fb, fo)
			if y == b {
				r := m.settle(y.addr, true)
				r.inc.Add(r.inc, tq)
				r = m.settle(y.addr, false)
				r.reduce.Add(r.reduce, new(big.Int).Add(ta, new(big.Int).Add(fb, fo)))
			}
			if y == s {
				r := m.settle(y.addr, false)
				r.inc.Add(r.inc, new(big.Int).Sub(ta, new(big.Int).Add(fb, fo)))
				sym.Assert(ta.Cmp(new(big.Int).Add(fb, fo)) >= 0, "a-fee-never-exceeds-the-amount")
				r = m.settle(y.addr, true)
				r.reduce.Add(r.reduce, tq)
			}
		}
		last = k.price
		if i+1 < len(trades) {
			sym.Assert(m.spent(k, true, last), "the-best-order-is-used-up-first")
		}
		sym.Reach("trade")
	}
	if len(trades) < len(q) && accepts(o, q[len(trades)]) {
		sym.Assert(len(trades) > 0 && m.spent(o, true, last), "an-order-takes-all-it-can")
	}
	// what is left
	done := len(trades) > 0 && m.closed(x.Status)
	for _, k := range q {
		if !k.changed {
			continue
		}
		y, err := mc.GetOrderById(k.id)
		gone := err == dex.OrderNotExistsErr
		sym.Assert(gone || err == nil && y != nil, "an-order-is-in-the-book-or-not")
		if gone {
			sym.Assert(m.spent(k, true, k.price), "only-a-spent-order-leaves-the-book")
			m.close(k)
		} else {
			sym.Assert(!m.spent(k, false, k.price), "a-spent-order-leaves-the-book")
		}
	}
	_ = done
	if o.typ == dex.Limited {
		if m.closed(x.Status) {
			sym.Assert(m.spent(o, true, last), "only-a-spent-order-leaves-the-book")
			m.close(o)
		} else {
			sym.Assert(len(trades) == 0 || !m.spent(o, false, last), "a-spent-order-leaves-the-book")
			o.open = true
		}
	} else {
		if o.typ == dex.FillOrKill {
			sym.Assert(m.spent(o, true, last), "filled-or-killed")
			sym.Reach("filled")
		}
		m.close(o)
	}
	m.compare(mc, o, x)
}

func (m *market) closed(s int32) bool { return s == dex.FullyExecuted || s == dex.Cancelled }

// fillable: the acceptable orders cover the whole order.
func (m *market) fillable(o *order, q []*order) bool {
	left := new(big.Int).Set(o.q)
	for _, k := range q {
		if accepts(o, k) {
			left.Sub(left, k.left())
		}
	}
	return left.Sign() <= 0
}

// compare checks book and settlements against the record.
func (m *market) compare(mc *dex.Matcher, o *order, x *dex.Order) {
	if o != nil {
		s := x.Status
		sym.Assert(sym.Implies(o.open, sym.And(s == dex.Pending || s == dex.PartialExecuted, (s == dex.PartialExecuted) == o.partial)), "status-of-an-open-order")
		sym.Assert(sym.Implies(!o.open, m.closed(s)), "status-of-a-closed-order")
		sym.Assert(sym.And(num(x.ExecutedQuantity).Cmp(o.xq) == 0, num(x.ExecutedAmount).Cmp(o.xa) == 0, num(x.ExecutedBaseFee).Cmp(o.xb) == 0, num(x.ExecutedOperatorFee).Cmp(o.xo) == 0), "an-order-records-what-was-executed")
	}
	book := true
	for _, side := range []bool{buy, sell} {
		want := m.queue(side)
		got, n, err := mc.GetOrdersFromMarket(side, 0, 10)
		sym.Assert(err == nil && n == len(got) && n == len(want), "the-book-holds-the-open-orders")
		for i, k := range want {
			g := got[i]
			sym.Assert(sym.And(bytes.Equal(g.Id, k.id), bytes.Equal(g.Address, k.addr.Bytes()), g.Side == side, g.MarketId == marketId, bytes.Equal(g.Price, dex.PriceToBytes(k.price.text)), g.Type == int32(k.typ)), "the-book-is-in-order")
			book = sym.And(book, num(g.Quantity).Cmp(k.q) == 0, num(g.Amount).Cmp(k.a) == 0, num(g.LockedBuyFee).Cmp(k.fee) == 0, num(g.ExecutedQuantity).Cmp(k.xq) == 0, num(g.ExecutedAmount).Cmp(k.xa) == 0, num(g.ExecutedBaseFee).Cmp(k.xb) == 0, num(g.ExecutedOperatorFee).Cmp(k.xo) == 0)
			sym.Assert(g.TakerFeeRate == k.rates[0] && g.TakerOperatorFeeRate == k.rates[1] && g.MakerFeeRate == k.rates[2] && g.MakerOperatorFeeRate == k.rates[3], "the-book-keeps-the-fee-rates")
			id, ok := dex.GetOrderIdByHash(m.db, k.hash.Bytes())
			sym.Assert(ok && bytes.Equal(id, k.id), "an-open-order-is-found-by-its-request")
		}
	}
	sym.Assert(book, "the-book-records-what-was-executed")
	for _, k := range m.orders {
		if !k.open {
			_, err := mc.GetOrderById(k.id)
			_, ok := dex.GetOrderIdByHash(m.db, k.hash.Bytes())
			sym.Assert(err == dex.OrderNotExistsErr && !ok, "a-closed-order-is-forgotten")
		}
	}
	fs := mc.GetFundSettles()
	zero := &settle{new(big.Int), new(big.Int), new(big.Int)}
	gets, pays, returned, fees := true, true, true, true
	for _, k := range m.orders {
		for _, trade := range []bool{true, false} {
			s := zero
			if e := m.settles[k.addr][trade]; e != nil {
				s = e
			}
			g := fs[k.addr][trade]
			if g == nil {
				g = &dexproto.AccountSettle{IsTradeToken: trade}
			}
			sym.Assert(g.IsTradeToken == trade, "a-settlement-names-its-token")
			gets = sym.And(gets, num(g.IncAvailable).Cmp(s.inc) == 0)
			pays = sym.And(pays, num(g.ReduceLocked).Cmp(s.reduce) == 0)
			returned = sym.And(returned, num(g.ReleaseLocked).Cmp(s.release) == 0)
		}
		f := mc.GetFees()[k.addr]
		if f == nil {
			f = &dexproto.FeeSettle{}
		}
		want, ok := m.fees[k.addr]
		if !ok {
			want = [2]*big.Int{new(big.Int), new(big.Int)}
		}
		fees = sym.And(fees, num(f.BaseFee).Cmp(want[0]) == 0, num(f.OperatorFee).Cmp(want[1]) == 0)
	}
	sym.Assert(gets, "everybody-gets-what-was-traded")
	sym.Assert(pays, "everybody-pays-what-was-traded")
	sym.Assert(returned, "the-rest-is-returned")
	sym.Assert(fees, "fees-are-accounted-to-their-payer")
	known := func(a types.Address) bool {
		for _, k := range m.orders {
			if k.addr == a {
				return true
			}
		}
		return false
	}
	for a := range fs {
		sym.Assert(known(a), "only-parties-are-settled")
	}
	for a := range mc.GetFees() {
		sym.Assert(known(a), "only-parties-pay-fees")
	}
}

// cancel withdraws an open order.
func (m *market) cancel(o *order) {
	m.settles, m.fees = map[types.Address]map[bool]*settle{}, map[types.Address][2]*big.Int{}
	mc := dex.NewMatcherWithMarketInfo(m.db, m.info)
	x, err := mc.GetOrderById(o.id)
	sym.Assert(err == nil, "an-open-order-is-found")
	mc.CancelOrderById(x)
	m.close(o)
	m.compare(mc, o, x)
}

func quantity(name string, bits int) *big.Int {
	q := sym.BigInt(name, bits)
	sym.Assume(q.Sign() > 0)
	return q
}

func user(i int) types.Address { return types.Address{0x30, byte(i)} }

// VerifH_Take: a book of two standing orders of one side meets an order of any kind.
func VerifH_Take() {
	bits := sym.Param("bits", 6)
	np := sym.Param("prices", 3)
	m := open(builtin.Newest, 8, 8)
	side := sym.Bool("standing orders sell")
	typ := sym.Choose("kind", 5)
	r := rates[0]
	if all := sym.Param("rates", 0); all > 0 {
		r = rates[sym.Choose("rates", all)]
	} else if typ >= dex.PostOnly {
		r = rates[1] // without fees
	}
	p0, p1 := sym.Choose("first price", np), sym.Choose("second price", np)
	for i, p := range []int{p0, p1} {
		o, x := m.newOrder(i, user(i), side, dex.Limited, p, quantity("standing", bits), r)
		m.place(o, x)
	}
	p := 0
	if typ != dex.Market {
		p = sym.Choose("price", np)
	}
	self := sym.Param("self", 0)
	u := user(2)
	if self > 0 && sym.Bool("with itself") {
		u = user(0)
	}
	o, x := m.newOrder(2, u, !side, typ, p, quantity("taken", bits+1), r)
	if typ == dex.Market {
		x.Price = make([]byte, dex.PriceBytesLength)
		if !side == buy {
			o.a = quantity("money", bits+2)
			o.fee = new(big.Int).Set(o.a) // ample
			x.Amount, x.LockedBuyFee = o.a.Bytes(), o.fee.Bytes()
		}
	}
	m.place(o, x)
	for _, k := range m.orders {
		if k.open {
			m.cancel(k)
			sym.Reach("cancelled")
			break
		}
	}
}

// VerifH_Again: one standing order is taken twice, rounding each time.
func VerifH_Again() {
	bits := sym.Param("bits", 6)
	m := open(builtin.Newest, 8, 8)
	side := sym.Bool("standing order sells")
	r := rates[sym.Choose("rates", sym.Param("rates", 1))]
	p := sym.Choose("price", sym.Param("prices", 2))
	o, x := m.newOrder(0, user(0), side, dex.Limited, p, quantity("standing", bits+1), r)
	m.place(o, x)
	for i := 1; i <= sym.Param("takes", 2); i++ {
		o, x := m.newOrder(i, user(i), !side, dex.Limited, p, quantity("taken", bits), r)
		m.place(o, x)
	}
	for _, k := range m.orders {
		if k.open {
			m.cancel(k)
			sym.Reach("cancelled")
		}
	}
}

// VerifH_Decimals: tokens of different precision; both parties may be the same user.
func VerifH_Decimals() {
	bits := sym.Param("bits", 4)
	d := [][2]int32{{6, 8}, {8, 7}}[sym.Choose("decimals", 2)]
	m := open(builtin.Newest, d[0], d[1])
	side := sym.Bool("standing order sells")
	p, t := sym.Choose("price", 2), sym.Choose("limit", 2)
	o, x := m.newOrder(0, user(0), side, dex.Limited, p, quantity("standing", bits+2), rates[1])
	m.place(o, x)
	o, x = m.newOrder(1, user(sym.Choose("user", 2)), !side, dex.Limited, t, quantity("taken", bits), rates[1])
	m.place(o, x)
	for _, k := range m.orders {
		if k.open {
			m.cancel(k)
			sym.Reach("cancelled")
		}
	}
}

// VerifH_Self: a user trades with itself, with fees.
func VerifH_Self() {
	bits := sym.Param("bits", 4)
	m := open(builtin.Newest, 8, 8)
	side := sym.Bool("standing order sells")
	for i := 0; i < 2; i++ {
		o, x := m.newOrder(i, user(0), side != (i == 1), dex.Limited, 0, quantity("quantity", bits), rates[0])
		m.place(o, x)
	}
	sym.Reach("self")
}

// VerifH_Many: one order trades with a hundred others at most; what is left is returned.
func VerifH_Many() {
	m := open(builtin.Newest, 8, 8)
	for i := 0; i < 101; i++ {
		o, x := m.newOrder(i, user(0), sell, dex.Limited, 2, big.NewInt(2), rates[1])
		if err := dex.NewMatcherWithMarketInfo(m.db, m.info).MatchOrder(x, types.Hash{0xff}); err != nil {
			panic(err)
		}
		o.open = true
		m.orders = append(m.orders, o)
	}
	q := new(big.Int).Add(quantity("more", 3), big.NewInt(196))
	o, x := m.newOrder(101, user(1), buy, dex.Limited, 2, q, rates[1])
	mc := dex.NewMatcherWithMarketInfo(m.db, m.info)
	sym.Assert(mc.MatchOrder(x, types.Hash{0xff}) == nil, "an-order-is-matched")
	got := q
	if q.Cmp(big.NewInt(200)) > 0 {
		got = big.NewInt(200)
		sym.Assert(x.Status == dex.Cancelled, "a-long-order-is-cut")
		sym.Reach("cut")
	} else {
		sym.Assert(x.Status == dex.FullyExecuted, "a-short-order-is-filled")
		sym.Reach("filled")
	}
	sym.Assert(num(x.ExecutedQuantity).Cmp(got) == 0, "an-order-records-what-was-executed")
	fs := mc.GetFundSettles()
	b, s := fs[user(1)], fs[user(0)]
	sym.Assert(b[true] != nil && b[false] != nil && s[true] != nil && s[false] != nil, "parties-are-settled")
	sym.Assert(sym.And(num(b[true].IncAvailable).Cmp(got) == 0, num(s[true].ReduceLocked).Cmp(got) == 0, num(b[false].ReduceLocked).Cmp(num(s[false].IncAvailable)) == 0,
		new(big.Int).Add(num(b[false].ReduceLocked), num(b[false].ReleaseLocked)).Cmp(o.a) == 0), "a-long-order-is-settled")
	_, err := mc.GetOrderById(o.id)
	sym.Assert(err == dex.OrderNotExistsErr, "a-closed-order-is-forgotten")
}
