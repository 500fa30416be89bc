// Package dexfund checks what the exchange holds for its users against a plain record of it.
package dexfund

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	ccore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

const (
	marketId = 7
	start    = int64(1700000000)
	day      = int64(86400)
)

var (
	fund       = types.AddressDexFund
	trade      = types.AddressDexTrade
	tradeToken = types.TokenTypeId{0x71}
	quoteToken = types.TokenTypeId{0x72}
	alice      = types.Address{0xa1}
	bob        = types.Address{0xb0}
	carol      = types.Address{0xca}
	owner      = types.Address{0x19}
	trigger    = types.Address{0x17}
	zero       = new(big.Int)
)

type reader struct{}

func (reader) GetIndexByStartTime(t, g int64) (uint64, int64, bool) { return 0, 0, false }
func (reader) GetIndexByEndTime(t, g int64) (uint64, int64, bool)   { return 0, 0, false }
func (reader) GetIndexByTime(t, g int64) uint64                     { return uint64(t / day) }
func (reader) GetEndTimeByIndex(i uint64) int64                     { return int64(i) * day }
func (reader) GetConsensusDetailByDay(s, e uint64) ([]*ccore.DayStats, error) {
	return nil, nil
}

func num(b []byte) *big.Int            { return new(big.Int).SetBytes(b) }
func add(a, b *big.Int) *big.Int       { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int       { return new(big.Int).Sub(a, b) }
func mul(a *big.Int, n int64) *big.Int { return new(big.Int).Mul(a, big.NewInt(n)) }

// part is what one user has of one token: free to use, in open orders, VX locked and being unlocked, stake being returned.
type part struct{ free, locked, vx, vxLeaving, stake *big.Int }

type holding struct {
	user  types.Address
	token types.TokenTypeId
	part
}

type exchange struct {
	*builtin.World
	users    []types.Address
	tokens   []types.TokenTypeId
	want     []*holding
	strays   map[types.TokenTypeId]*big.Int // sent along with requests that are no deposits
	period   uint64
	periods  []uint64
	pending  []*core.AccountBlock
	out      []*core.AccountBlock // sent to users
	operator []types.Address
}

func open(height uint64) *exchange {
	w := builtin.New(height, start)
	w.Reader = reader{}
	e := &exchange{World: w, users: []types.Address{alice, bob, carol}, tokens: []types.TokenTypeId{tradeToken, quoteToken}, strays: map[types.TokenTypeId]*big.Int{}, period: uint64(start / day), operator: []types.Address{owner}}
	e.periods = []uint64{e.period}
	e.setup(fund, func(db interfaces.VmDb) {
		if err := dex.SetDexTimestamp(db, start, reader{}); err != nil {
			panic(err)
		}
		dex.SetOwner(db, owner)
		dex.SetPeriodJobTrigger(db, trigger)
	})
	return e
}

// setup writes directly into a contract's storage.
func (e *exchange) setup(addr types.Address, f func(db interfaces.VmDb)) {
	db := e.DB(addr)
	f(db)
	a := e.Account(addr)
	for _, kv := range db.GetUnsavedStorage() {
		a.SetValue(kv[0], kv[1])
	}
}

// give lets a user own something of a token outside the exchange.
func (e *exchange) give(u types.Address, t types.TokenTypeId, amount *big.Int) {
	e.Account(u).SetBalance(t, add(e.Account(u).Balance(t), amount))
}

// stock lets a user own something inside the exchange.
func (e *exchange) stock(u types.Address, t types.TokenTypeId, amount *big.Int) {
	e.setup(fund, func(db interfaces.VmDb) { dex.DepositAccount(db, u, t, amount) })
	e.give(fund, t, amount)
	h := e.hold(u, t)
	h.free = add(h.free, amount)
}

func (e *exchange) hold(u types.Address, t types.TokenTypeId) *holding {
	for _, h := range e.want {
		if h.user == u && h.token == t {
			return h
		}
	}
	h := &holding{u, t, part{new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)}}
	e.want = append(e.want, h)
	return h
}

// actual reads what the exchange keeps for a user.
func (e *exchange) actual(u types.Address, t types.TokenTypeId) part {
	f, _ := dex.GetFund(e.View(fund), u)
	seen := false
	r := part{new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
	for _, a := range f.Accounts {
		if string(a.Token) == string(t.Bytes()) {
			sym.Assert(!seen, "one-account-per-user-and-token")
			seen = true
			r = part{num(a.Available), num(a.Locked), num(a.VxLocked), num(a.VxUnlocking), num(a.CancellingStake)}
		}
	}
	return r
}

func (p part) sum() *big.Int { return add(add(p.free, p.locked), add(add(p.vx, p.vxLeaving), p.stake)) }

// fees is what the exchange keeps of a token as fees not yet handed out.
func (e *exchange) fees(t types.TokenTypeId) *big.Int {
	r := new(big.Int)
	db := e.View(fund)
	for _, p := range e.periods {
		if f, ok := dex.GetDexFeesByPeriodId(db, p); ok && !f.FinishDividend {
			for _, x := range f.FeesForDividend {
				if string(x.Token) == string(t.Bytes()) {
					if p == e.period || x.NotRoll {
						r.Add(r, num(x.DividendPoolAmount))
					} else { // the rest was carried over
						r.Add(r, num(dex.CalculateAmountForRate(x.DividendPoolAmount, dex.PerPeriodDividendRate)))
					}
				}
			}
		}
		for _, o := range e.operator {
			if f, ok := dex.GetOperatorFeesByPeriodId(db, o.Bytes(), p); ok {
				for _, x := range f.OperatorFees {
					if string(x.Token) == string(t.Bytes()) {
						for _, m := range x.MarketFees {
							r.Add(r, num(m.Amount))
						}
					}
				}
			}
		}
	}
	return r
}

// covered: what the exchange owes is what it has, and it owes what the record says.
func (e *exchange) covered() {
	for _, t := range e.tokens {
		owed := e.fees(t)
		if s, ok := e.strays[t]; ok {
			owed = add(owed, s)
		}
		for _, u := range append(append([]types.Address{}, e.users...), e.operator...) {
			owed = add(owed, e.actual(u, t).sum())
		}
		sym.Assert(owed.Cmp(e.Account(fund).Balance(t)) == 0, "every-deposit-is-covered")
	}
}

func (e *exchange) asRecorded() {
	for _, u := range e.users {
		for _, t := range e.tokens {
			h, a := e.hold(u, t), e.actual(u, t)
			sym.Assert(sym.And(a.free.Cmp(h.free) == 0, a.locked.Cmp(h.locked) == 0), "a-user-has-what-was-paid-in-and-not-taken-out")
			sym.Assert(sym.And(a.vx.Cmp(h.vx) == 0, a.vxLeaving.Cmp(h.vxLeaving) == 0, a.stake.Cmp(h.stake) == 0), "a-users-locked-amounts-are-theirs")
		}
	}
}

func pack(err error, d []byte) []byte {
	if err != nil {
		panic(err)
	}
	return d
}

func data(method string, args ...interface{}) []byte {
	d, err := abi.ABIDexFund.PackMethod(method, args...)
	return pack(err, d)
}

// ask sends a request to the exchange and lets it be executed; answers stay pending.
func (e *exchange) ask(from types.Address, t types.TokenTypeId, amount *big.Int, d []byte) (*core.AccountBlock, error) {
	s, err := e.Send(from, fund, t, amount, d)
	if err != nil {
		return nil, err
	}
	r, err := e.Receive(s, nil)
	if err != nil {
		return s, err
	}
	for _, x := range r.SendBlockList {
		if x.ToAddress == fund || x.ToAddress == trade || x.ToAddress == types.AddressQuota || x.ToAddress == types.AddressAsset {
			e.pending = append(e.pending, x)
		} else {
			e.out = append(e.out, x)
		}
	}
	return s, nil
}

// step lets the oldest request between the contracts be executed.
func (e *exchange) step() error {
	s := e.pending[0]
	e.pending = e.pending[1:]
	sym.Assert(s.Amount.Sign() == 0, "contracts-of-the-exchange-send-each-other-nothing")
	r, err := e.Receive(s, nil)
	if err != nil {
		return err
	}
	e.pending = append(e.pending, r.SendBlockList...)
	return nil
}

func (e *exchange) paidOut(to types.Address, t types.TokenTypeId, amount *big.Int) {
	sym.Assert(len(e.out) == 1 && len(e.pending) == 0, "a-withdrawal-is-one-payment")
	x := e.out[0]
	e.out = nil
	sym.Assert(sym.And(x.ToAddress == to, x.TokenId == t, x.Amount.Cmp(amount) == 0), "a-withdrawal-pays-the-amount-to-whom-it-was-meant-for")
}

// VerifH_Hold: deposits, withdrawals and transfers, of the sender and in favour of others.
func VerifH_Hold() {
	e := open(builtin.Newest)
	bits := sym.Param("bits", 9)
	e.tokens = append(e.tokens, dex.VxTokenId)
	max := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if sym.Choose("stock", 2) == 1 {
		e.stock(alice, tradeToken, sym.BigInt("s0", bits))
		e.stock(alice, quoteToken, sym.BigInt("s1", bits))
	}
	n := sym.Param("steps", 2)
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		t := e.tokens[sym.Choose("token"+id, sym.Param("tokens", 2))]
		from := e.users[sym.Choose("from"+id, 2)]
		amount := sym.BigInt("amount"+id, bits)
		h := e.hold(from, t)
		enough := h.free.Cmp(amount) >= 0
		var err error
		var s *core.AccountBlock
		ops := 5
		if i == 0 {
			ops = sym.Param("first", 5)
		}
		switch sym.Choose("op"+id, ops) {
		case 0:
			e.give(from, t, max)
			s, err = e.ask(from, t, amount, data(abi.MethodNameDexFundDeposit))
			sym.Assert((err == nil) == (amount.Sign() > 0), "a-deposit-is-taken")
			if err == nil {
				h.free = add(h.free, amount)
				sym.Assert(len(e.out) == 0 && len(e.pending) == 0, "a-deposit-pays-nobody")
				sym.Reach("deposit")
			}
		case 1:
			target := e.users[sym.Choose("for"+id, 2)]
			e.give(from, t, max)
			s, err = e.ask(from, t, amount, data(abi.MethodNameDexFundAgentDeposit, target))
			sym.Assert((err == nil) == (amount.Sign() > 0), "a-deposit-is-taken")
			if err == nil {
				g := e.hold(target, t)
				g.free = add(g.free, amount)
				sym.Assert(len(e.out) == 0 && len(e.pending) == 0, "a-deposit-pays-nobody")
				sym.Reach("deposit-for-another")
			}
		case 2:
			s, err = e.ask(from, core.ViteTokenId, zero, data(abi.MethodNameDexFundWithdraw, t, amount))
			sym.Assert((err == nil) == sym.And(amount.Sign() > 0, enough), "what-is-free-and-nothing-more-can-be-withdrawn")
			if err == nil {
				h.free = sub(h.free, amount)
				e.paidOut(from, t, amount)
				sym.Reach("withdraw")
			}
		case 3:
			target := e.users[sym.Choose("to"+id, 3)]
			s, err = e.ask(from, core.ViteTokenId, zero, data(abi.MethodNameDexFundAssignedWithdraw, target, t, amount, []byte{1, 2}))
			sym.Assert((err == nil) == sym.And(amount.Sign() > 0, enough), "what-is-free-and-nothing-more-can-be-withdrawn")
			if err == nil {
				h.free = sub(h.free, amount)
				e.paidOut(target, t, amount)
				sym.Reach("withdraw-to-another")
			}
		case 4:
			target := e.users[sym.Choose("to"+id, 3)]
			s, err = e.ask(from, core.ViteTokenId, zero, data(abi.MethodNameDexFundTransfer, target, t, amount))
			sym.Assert((err == nil) == sym.And(amount.Sign() > 0, enough), "what-is-free-and-nothing-more-can-be-withdrawn")
			if err == nil {
				h.free = sub(h.free, amount)
				g := e.hold(target, t)
				g.free = add(g.free, amount)
				sym.Assert(len(e.out) == 0 && len(e.pending) == 0, "a-transfer-pays-nobody-outside")
				sym.Reach("transfer")
			}
		}
		if err != nil {
			sym.Assert(sym.Or(s != nil, amount.Sign() == 0), "only-empty-requests-are-refused-at-once")
			sym.Reach("refused")
		}
		e.asRecorded()
		e.covered()
	}
}

func tokenInfo(t types.TokenTypeId, decimals int32, quote bool) *dex.TokenInfo {
	i := &dex.TokenInfo{TokenInfo: dexproto.TokenInfo{TokenId: t.Bytes(), Decimals: decimals, Symbol: "T", Owner: owner.Bytes()}}
	if quote {
		i.QuoteTokenType = dex.UsdTokenType
	}
	return i
}
