// Package asset checks the token contract against a plain record of every token.
package asset

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

var (
	alice = types.Address{0x11}
	bob   = types.Address{0x12}
	users = []types.Address{alice, bob}
	tok   = types.TokenTypeId{0x71}
	other = types.TokenTypeId{0x72}
	none  = types.TokenTypeId{0x73}
	zero  = new(big.Int)
)

func bits() int { return sym.Param("bits", 200) }

type info struct {
	name, symbol  string
	supply        *big.Int
	decimals      byte
	owner         types.Address
	re            bool
	max           *big.Int
	burnOnly      bool
	index         uint16
}

func (i *info) same(t *types.TokenInfo) bool {
	if t == nil {
		return false
	}
	return sym.And(t.TokenName == i.name, t.TokenSymbol == i.symbol, t.TotalSupply.Cmp(i.supply) == 0, t.Decimals == i.decimals, t.Owner == i.owner,
		t.IsReIssuable == i.re, t.MaxSupply.Cmp(i.max) == 0, t.OwnerBurnOnly == i.burnOnly, t.Index == i.index)
}

func (i *info) pack() []byte {
	v, err := cabi.ABIAsset.PackVariable(cabi.VariableNameTokenInfo, i.name, i.symbol, i.supply, i.decimals, i.owner, i.re, i.max, i.burnOnly, i.index)
	if err != nil {
		panic(err)
	}
	return v
}

type world struct {
	*builtin.World
	t, o *info // the two tokens there are
	old  bool
}

// newWorld has a token in any state a token can be in and another one.
func newWorld(eras int) *world {
	h := uint64(builtin.Newest)
	old := eras > 1 && sym.Choose("era", eras) == 1
	if old {
		h = 1
	}
	w := &world{World: builtin.New(h, 1600000000), old: old}
	t := &info{name: "Tok En", symbol: "TOK", supply: sym.BigInt("supply", bits()), decimals: sym.Byte("decimals"), index: sym.Uint16("index"), max: new(big.Int)}
	t.owner = users[sym.Choose("owner", 2)]
	t.re = sym.Choose("reissuable", 2) == 1
	if t.re {
		t.max = sym.BigInt("max supply", bits())
		sym.Assume(t.max.Cmp(t.supply) >= 0)
		t.burnOnly = sym.Choose("burn by owner only", 2) == 1
	}
	w.t = t
	w.o = &info{name: "Other", symbol: "OTHER", supply: big.NewInt(1000), decimals: 2, owner: alice, re: true, max: big.NewInt(5000)}
	a := w.Account(types.AddressAsset)
	a.SetValue(cabi.GetTokenInfoKey(tok), t.pack())
	a.SetValue(cabi.GetTokenInfoKey(other), w.o.pack())
	list := append(append([]byte{}, tok.Bytes()...), other.Bytes()...)
	if t.owner == bob {
		a.SetValue(cabi.GetTokenIDListKey(bob), append([]byte{}, tok.Bytes()...))
		list = append([]byte{}, other.Bytes()...)
	} else if sym.Choose("listed last", 2) == 1 {
		list = append(append([]byte{}, other.Bytes()...), tok.Bytes()...)
	}
	a.SetValue(cabi.GetTokenIDListKey(alice), list)
	return w
}

// holds gives an account some of what there is of the token.
func (w *world) holds(addr types.Address) *big.Int {
	b := sym.BigInt("balance", bits())
	sym.Assume(b.Cmp(w.t.supply) <= 0)
	w.Account(addr).SetBalance(tok, b)
	return new(big.Int).Set(b)
}

// expect compares every way of asking for tokens with the record.
func (w *world) expect(id string) {
	db := w.View(types.AddressAsset)
	ti, err := cabi.GetTokenByID(db, tok)
	sym.Assert(err == nil && w.t.same(ti), id)
	oi, err := cabi.GetTokenByID(db, other)
	sym.Assert(err == nil && w.o.same(oi), "other-tokens-are-not-touched")
	sym.Assert(sym.Implies(w.t.re, w.t.supply.Cmp(w.t.max) <= 0), "supply-within-the-maximum")
	all, err := cabi.GetTokenMap(db)
	sym.Assert(err == nil && len(all) == 2 && all[tok] != nil && all[other] != nil, "the-list-of-tokens")
	for _, u := range users {
		m, err := cabi.GetTokenMapByOwner(db, u)
		n := 0
		for id, o := range map[types.TokenTypeId]types.Address{tok: w.t.owner, other: w.o.owner} {
			if o == u {
				n++
				sym.Assert(m[id] != nil, "tokens-are-listed-under-their-owner")
			}
		}
		sym.Assert(err == nil && len(m) == n, "tokens-are-listed-under-their-owner-only")
	}
	for _, u := range users {
		sym.Assert(w.Account(u).Balance(other).Sign() == 0, "other-tokens-are-not-touched")
	}
}

func pack(name string, args ...interface{}) []byte {
	d, err := cabi.ABIAsset.PackMethod(name, args...)
	if err != nil {
		panic(err)
	}
	return d
}

// name is the old or the new name of a method.
func (w *world) name(v1, v2 string) string {
	if w.old || sym.Choose("old name", 2) == 1 {
		return v1
	}
	return v2
}

// VerifH_ReIssue: only the owner of a reissuable token can mint, only up to its maximum, and exactly that reaches
// the named account.
func VerifH_ReIssue() {
	w := newWorld(sym.Param("eras", 2))
	from := users[sym.Choose("sender", 2)]
	id := []types.TokenTypeId{tok, none}[sym.Choose("token", 2)]
	amount := sym.BigInt("amount", bits())
	given := zero
	if sym.Choose("with money", 2) == 1 {
		given = sym.BigInt("given", 64)
		w.Account(from).SetBalance(core.ViteTokenId, sym.BigInt("vite", 64))
	}
	has := new(big.Int).Set(w.Account(from).Balance(core.ViteTokenId))
	s, err := w.Send(from, types.AddressAsset, core.ViteTokenId, given, pack(w.name(cabi.MethodNameReIssue, cabi.MethodNameReIssueV2), id, amount, bob))
	sym.Assert(sym.Iff(err == nil, sym.And(amount.Sign() > 0, given.Sign() == 0)), "reissue-requests-name-an-amount-and-carry-none")
	if err != nil {
		sym.Assert(w.Account(from).Balance(core.ViteTokenId).Cmp(has) == 0, "a-refused-request-costs-nothing")
		return
	}
	b, err := w.Receive(s, nil)
	ok := sym.And(id == tok, w.t.re, w.t.owner == from, new(big.Int).Add(w.t.supply, amount).Cmp(w.t.max) <= 0)
	sym.Assert(sym.Iff(err == nil, ok), "only-the-owner-mints-and-only-up-to-the-maximum")
	m := builtin.Minted(b)
	if err != nil {
		sym.Assert(len(m) == 0, "nothing-is-minted-otherwise")
		w.expect("a-refused-mint-changes-nothing")
		sym.Reach("not minted")
		return
	}
	sym.Assert(len(m) == 1 && len(b.SendBlockList) == 1, "minted-once")
	sym.Assert(sym.And(m[0].Amount.Cmp(amount) == 0, m[0].TokenId == tok, m[0].ToAddress == bob), "exactly-the-amount-is-minted-for-the-named-account")
	w.t.supply = new(big.Int).Add(w.t.supply, amount)
	w.expect("the-supply-grows-by-what-was-minted")
	sym.Assert(len(w.Logs) == 1, "a-mint-is-logged")
	w.received(m[0], bob)
	sym.Reach("minted")
}

// received: a minted amount reaches its receiver once.
func (w *world) received(m *core.AccountBlock, to types.Address) {
	before := new(big.Int).Set(w.Account(to).Balance(m.TokenId))
	_, err := w.Receive(m, nil)
	sym.Assert(err == nil && w.Account(to).Balance(m.TokenId).Cmp(new(big.Int).Add(before, m.Amount)) == 0, "minted-tokens-arrive")
}

// VerifH_Burn: burning takes the burned amount out of circulation and out of the supply.
func VerifH_Burn() {
	w := newWorld(sym.Param("eras", 2))
	from := users[sym.Choose("sender", 2)]
	b0 := w.holds(from)
	id := tok
	if sym.Choose("token", 2) == 1 {
		id = none
		w.Account(from).SetBalance(none, big.NewInt(1000))
		b0 = big.NewInt(1000)
	}
	amount := sym.BigInt("amount", bits())
	s, err := w.Send(from, types.AddressAsset, id, amount, pack(cabi.MethodNameBurn))
	sym.Assert(sym.Iff(err == nil, sym.And(amount.Sign() > 0, amount.Cmp(b0) <= 0)), "what-one-has-can-be-burned")
	if err != nil {
		sym.Reach("not requested")
		return
	}
	b, err := w.Receive(s, amount)
	ok := sym.And(id == tok, w.t.re || !w.old, !w.t.burnOnly || w.t.owner == from)
	sym.Assert(sym.Iff(err == nil, ok), "who-may-burn")
	if err != nil {
		w.expect("a-refused-burn-changes-nothing")
		sym.Reach("not burned")
		return
	}
	sym.Assert(len(b.SendBlockList) == 0, "burned-tokens-go-nowhere")
	w.t.supply = new(big.Int).Sub(w.t.supply, amount)
	w.expect("the-supply-shrinks-by-what-was-burned")
	sym.Assert(len(w.Logs) == 1, "a-burn-is-logged")
	sym.Reach("burned")
}

// VerifH_Owner: only the owner passes a token on or closes it; nothing else about it changes.
func VerifH_Owner() {
	w := newWorld(sym.Param("eras", 2))
	from := users[sym.Choose("sender", 2)]
	id := []types.TokenTypeId{tok, none}[sym.Choose("token", 2)]
	closing := sym.Choose("closing", 2) == 1
	to := users[sym.Choose("new owner", 2)]
	var data []byte
	if closing {
		data = pack(w.name(cabi.MethodNameDisableReIssue, cabi.MethodNameDisableReIssueV2), id)
	} else {
		data = pack(w.name(cabi.MethodNameTransferOwnership, cabi.MethodNameTransferOwnershipV2), id, to)
	}
	s, err := w.Send(from, types.AddressAsset, core.ViteTokenId, zero, data)
	sym.Assert((err == nil) == (closing || to != from), "ownership-is-passed-to-another")
	if err != nil {
		return
	}
	b, err := w.Receive(s, nil)
	ok := id == tok && w.t.re && w.t.owner == from
	sym.Assert((err == nil) == ok, "only-the-owner-of-an-open-token-may")
	if err != nil {
		w.expect("a-refused-change-changes-nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(b.SendBlockList) == 0 && len(w.Logs) == 1, "changes-are-logged")
	if closing {
		w.t.re, w.t.max, w.t.burnOnly = false, zero, false
	} else {
		w.t.owner = to
	}
	w.expect("exactly-the-change-is-made")
	// a closed token or one passed on is out of the hands of its former owner
	s, err = w.Send(from, types.AddressAsset, core.ViteTokenId, zero, pack(cabi.MethodNameReIssue, tok, big.NewInt(1), from))
	sym.Assert(err == nil, "a-request-can-be-made")
	b, err = w.Receive(s, nil)
	sym.Assert(err != nil && len(builtin.Minted(b)) == 0, "the-former-owner-mints-no-more")
	w.expect("nothing-changed")
	sym.Reach("changed")
}

var names = []struct {
	name, symbol string
	ok           bool
}{
	{"My Token", "MY1", true}, {"A", "A", true}, {"_", "0123456789", true},
	{"", "MY1", false}, {"My Token", "", false}, {"My  Token", "MY1", false}, {"Token ", "MY1", false}, {"Tok3n", "MY1", false},
	{"My Token", "my1", false}, {"My Token", "VITE", false}, {"My Token", "VX", false}, {"My Token", "VCP", false},
	{"abcdefghijabcdefghijabcdefghijabcdefghij", "ABCDEFGHIJ", true}, {"abcdefghijabcdefghijabcdefghijabcdefghijk", "MY1", false}, {"My Token", "ABCDEFGHIJK", false},
}

// VerifH_Issue: a new token is recorded as asked for, under an id of its own, and all of it reaches its maker.
func VerifH_Issue() {
	w := newWorld(1)
	w.t.owner = w.t.owner // the other tokens stay what they are
	n := names[sym.Choose("name", len(names))]
	re, burnOnly := sym.Choose("reissuable new", 2) == 1, sym.Choose("burn by owner only new", 2) == 1
	supply, maxs := sym.BigInt("supply new", bits()), sym.BigInt("max new", bits())
	dec := sym.Byte("decimals new")
	vite := sym.BigInt("vite", 96)
	w.Account(alice).SetBalance(core.ViteTokenId, vite)
	vite = new(big.Int).Set(vite)
	fee := new(big.Int).Mul(big.NewInt(1000), builtin.Big10(18))
	given := zero
	if n.symbol == "A" {
		given = big.NewInt(1)
	}
	next := uint16(0)
	if sym.Choose("symbol used before", 2) == 1 {
		next = sym.Uint16("next index")
		v, _ := cabi.ABIAsset.PackVariable(cabi.VariableNameTokenIndex, next)
		w.Account(types.AddressAsset).SetValue(cabi.GetNextTokenIndexKey(n.symbol), v)
	}
	s, err := w.Send(alice, types.AddressAsset, core.ViteTokenId, given, pack(w.name(cabi.MethodNameIssue, cabi.MethodNameIssueV2), re, n.name, n.symbol, supply, dec, maxs, burnOnly))
	ok := sym.And(n.ok, given.Sign() == 0, vite.Cmp(fee) >= 0)
	if re {
		ok = sym.And(ok, maxs.Cmp(supply) >= 0)
	} else {
		ok = sym.And(ok, supply.Sign() > 0, maxs.Sign() == 0, !burnOnly)
	}
	sym.Assert(sym.Iff(err == nil, ok), "a-token-is-made-exactly-on-valid-terms")
	if err != nil {
		sym.Assert(w.Account(alice).Balance(core.ViteTokenId).Cmp(vite) == 0, "a-refused-request-costs-nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(s.Fee.Cmp(fee) == 0, "a-token-costs-its-fee")
	b, err := w.Receive(s, nil)
	sym.Assert(sym.Iff(err == nil, next != 1000), "at-most-1000-tokens-share-a-symbol")
	m := builtin.Minted(b)
	if err != nil {
		sym.Assert(len(m) == 0, "nothing-is-minted-otherwise")
		w.expect("nothing-changed")
		sym.Reach("too many")
		return
	}
	sym.Assert(len(m) == 1 && len(b.SendBlockList) == 1, "minted-once")
	id := m[0].TokenId
	sym.Assert(id != tok && id != other, "a-token-has-an-id-of-its-own")
	sym.Assert(sym.And(m[0].Amount.Cmp(supply) == 0, m[0].ToAddress == alice), "exactly-the-supply-reaches-its-maker")
	sym.Assert(len(w.Logs) == 1, "a-new-token-is-logged")
	db := w.View(types.AddressAsset)
	ti, err := cabi.GetTokenByID(db, id)
	want := &info{n.name, n.symbol, supply, dec, alice, re, maxs, burnOnly, next}
	sym.Assert(err == nil && want.same(ti), "the-token-is-what-was-asked-for")
	t1, err := cabi.GetTokenByID(db, tok)
	sym.Assert(err == nil && w.t.same(t1), "other-tokens-are-not-touched")
	mine, err := cabi.GetTokenMapByOwner(db, alice)
	cnt := 2
	if w.t.owner == alice {
		cnt = 3
	}
	sym.Assert(err == nil && len(mine) == cnt && mine[id] != nil && mine[other] != nil, "tokens-are-listed-under-their-owner")
	w.received(m[0], alice)
	// the next token of that symbol is another one
	w.Account(alice).SetBalance(core.ViteTokenId, new(big.Int).Set(fee))
	s, err = w.Send(alice, types.AddressAsset, core.ViteTokenId, zero, pack(cabi.MethodNameIssue, false, n.name, n.symbol, big.NewInt(7), byte(0), zero, false))
	sym.Assert(err == nil, "a-token-can-be-made-again")
	b, err = w.Receive(s, nil)
	sym.Assert(sym.Iff(err == nil, next+1 != 1000), "at-most-1000-tokens-share-a-symbol")
	if err != nil {
		return
	}
	m = builtin.Minted(b)
	sym.Assert(len(m) == 1 && m[0].TokenId != id, "a-token-has-an-id-of-its-own")
	t2, err := cabi.GetTokenByID(w.View(types.AddressAsset), m[0].TokenId)
	sym.Assert(err == nil && t2 != nil && t2.Index == next+1, "tokens-of-a-symbol-are-numbered")
	sym.Reach("issued")
}

// VerifH_OldIssue: before the last rule change a token needed at least one whole unit.
func VerifH_OldIssue() {
	w := &world{World: builtin.New(1, 1600000000), old: true}
	dec := byte([]int{0, 2, 18}[sym.Choose("decimals", 3)])
	re := sym.Choose("reissuable", 2) == 1
	supply, maxs := sym.BigInt("supply new", bits()), zero
	if re {
		maxs = sym.BigInt("max new", bits())
	}
	w.Account(alice).SetBalance(core.ViteTokenId, new(big.Int).Mul(big.NewInt(1000), builtin.Big10(18)))
	s, err := w.Send(alice, types.AddressAsset, core.ViteTokenId, zero, pack(cabi.MethodNameIssue, re, "My Token", "MY1", supply, dec, maxs, false))
	sym.Assert(sym.Iff(err == nil, sym.And(supply.Cmp(builtin.Big10(int64(dec))) >= 0, !re || maxs.Cmp(supply) >= 0)), "a-token-is-made-exactly-on-valid-terms")
	if err != nil {
		return
	}
	b, err := w.Receive(s, nil)
	sym.Assert(err == nil, "made")
	m := builtin.Minted(b)
	sym.Assert(len(m) == 1 && m[0].Amount.Cmp(supply) == 0 && m[0].ToAddress == alice, "exactly-the-supply-reaches-its-maker")
	ti, err := cabi.GetTokenByID(w.View(types.AddressAsset), m[0].TokenId)
	want := &info{"My Token", "MY1", supply, dec, alice, re, maxs, false, 0}
	sym.Assert(err == nil && want.same(ti), "the-token-is-what-was-asked-for")
	sym.Reach("issued")
}

// VerifH_Info: a contract that asks about a token is told what is recorded.
func VerifH_Info() {
	w := newWorld(1)
	id := []types.TokenTypeId{tok, none}[sym.Choose("token", 2)]
	v3 := sym.Choose("old name", 2) == 0
	var data []byte
	bid := sym.Byte("bid")
	if v3 {
		data = pack(cabi.MethodNameGetTokenInfoV3, id)
	} else {
		data = pack(cabi.MethodNameGetTokenInfo, id, bid)
	}
	s, err := w.Send(alice, types.AddressAsset, core.ViteTokenId, zero, data)
	sym.Assert(err == nil, "anyone-may-ask")
	b, err := w.Receive(s, nil)
	sym.Assert(err == nil && len(b.SendBlockList) == 1, "one-answer")
	a := b.SendBlockList[0]
	sym.Assert(a.ToAddress == alice && a.Amount.Sign() == 0 && a.BlockType == core.BlockTypeSendCall, "the-answer-goes-to-who-asked")
	t := &info{supply: zero, max: zero}
	if id == tok {
		t = w.t
	}
	var want []byte
	if v3 {
		want, err = cabi.ABIAsset.PackCallback(cabi.MethodNameGetTokenInfoV3, s.Hash, id, id == tok, t.re, t.name, t.symbol, t.supply, t.decimals, t.max, t.burnOnly, t.index, t.owner)
	} else {
		want, err = cabi.ABIAsset.PackCallback(cabi.MethodNameGetTokenInfo, id, bid, id == tok, t.decimals, t.symbol, t.index, t.owner)
	}
	sym.Assert(err == nil && sym.EqBytes(a.Data, want), "the-answer-is-what-is-recorded")
	w.expect("asking-changes-nothing")
	sym.Reach("answered")
}
