// Package govern checks the contract of block producers and votes against a plain record of both.
package govern

import (
	"bytes"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	ccore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/builtin"
	"github.com/vitelabs/go-vite/v2/zz_verif/fakechain"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

const (
	now     = uint64(builtin.Newest)
	genesis = int64(1558411200)
	day     = int64(86400)
	lock    = uint64(3600 * 24 * 90)
)

var (
	alice  = types.Address{0x11}
	bob    = types.Address{0x12}
	carol  = types.Address{0x13}
	users  = []types.Address{alice, bob, carol}
	p0     = types.Address{0x20}
	p1     = types.Address{0x21}
	p2     = types.Address{0x22}
	p3     = types.Address{0x23}
	nodes  = []types.Address{p0, p1, p2, p3}
	zero   = new(big.Int)
	vite   = builtin.Big10(18)
	stake  = new(big.Int).Mul(big.NewInt(1000000), vite)
	stake0 = new(big.Int).Mul(big.NewInt(500000), vite)
	perBlk = big.NewInt(951293759512937595)
	tok    = types.TokenTypeId{0x71}
)

// sbp is one block producer on record.
type sbp struct {
	name                   string
	producer, payee, owner types.Address
	amount                 *big.Int
	expires                uint64
	rewarded, revoked      int64
	his                    []types.Address
	old                    bool // as written before payees could be named
}

func (s *sbp) key() []byte { return cabi.GetRegistrationInfoKey(s.name, types.SNAPSHOT_GID) }

func (s *sbp) pack() []byte {
	var v []byte
	var err error
	if s.old {
		v, err = cabi.ABIGovernance.PackVariable(cabi.VariableNameRegistrationInfo, s.name, s.producer, s.owner, s.amount, s.expires, s.rewarded, s.revoked, s.his)
	} else {
		v, err = cabi.ABIGovernance.PackVariable(cabi.VariableNameRegistrationInfoV2, s.name, s.producer, s.payee, s.owner, s.amount, s.expires, s.rewarded, s.revoked, s.his)
	}
	if err != nil {
		panic(err)
	}
	return v
}

func (s *sbp) same(r *types.Registration) bool {
	if r == nil || r.Name != s.name || len(r.HisAddrList) != len(s.his) {
		return false
	}
	for i, a := range s.his {
		if r.HisAddrList[i] != a {
			return false
		}
	}
	return sym.And(r.BlockProducingAddress == s.producer, r.RewardWithdrawAddress == s.payee, r.StakeAddress == s.owner, r.Amount.Cmp(s.amount) == 0,
		r.ExpirationHeight == s.expires, r.RewardTime == s.rewarded, r.RevokeTime == s.revoked)
}

type world struct {
	*builtin.World
	list  []*sbp
	votes map[types.Address]string
	now   int64
	fork  int64 // the day of the upgrade that raised the stake
}

// stats are what a day's production was: any fixed figures that differ from day to day.
type stats struct{ w *world }

func (s *stats) GetDayTimeIndex() ccore.TimeIndex {
	return ccore.NewTimeIndex(time.Unix(genesis, 0), 24*time.Hour)
}

func (s *stats) DayStats(start, end uint64) ([]*ccore.DayStats, error) {
	var r []*ccore.DayStats
	for d, e := which(start), which(end); d <= e; d++ {
		if st := statsOf(int64(d)); st != nil {
			r = append(r, st)
		}
	}
	return r, nil
}

// which tells the days apart.
func which(d uint64) uint64 {
	for k := uint64(0); k < 20; k++ {
		if d == k {
			return k
		}
	}
	sym.Assert(false, "only-days-there-were-are-asked-for")
	return 0
}

func statsOf(d int64) *ccore.DayStats {
	if d == 2 {
		return &ccore.DayStats{Index: 2, Stats: map[string]*ccore.SbpStats{}, VoteSum: &ccore.BigInt{Int: new(big.Int)}} // nobody produced
	}
	a, b := big.NewInt(1000+d), big.NewInt(77)
	a.Mul(a, vite)
	b.Mul(b, vite)
	return &ccore.DayStats{Index: uint64(d), VoteSum: &ccore.BigInt{Int: new(big.Int).Add(a, b)}, BlockTotal: uint64(900 + d), Stats: map[string]*ccore.SbpStats{
		"a": {Index: uint64(d), BlockNum: uint64(400 + d*d), ExceptedBlockNum: 600, VoteCnt: &ccore.BigInt{Int: a}, Name: "a"},
		"b": {Index: uint64(d), BlockNum: uint64(500 + d - d*d), ExceptedBlockNum: 600, VoteCnt: &ccore.BigInt{Int: b}, Name: "b"},
	}}
}

// reward of a day: half of every block goes to its producer, the other half of all blocks of the day is shared by
// votes and stake, weighted by the part of the planned blocks that were made.
func reward(d int64, name string, raised bool) (votes, blocks *big.Int) {
	return rewardOf(statsOf(d), name, raised)
}

func rewardOf(st *ccore.DayStats, name string, raised bool) (votes, blocks *big.Int) {
	me := st.Stats[name]
	if me == nil || me.ExceptedBlockNum == 0 {
		return new(big.Int), new(big.Int)
	}
	s := stake0
	if raised {
		s = stake
	}
	votes = new(big.Int).Add(me.VoteCnt.Int, s)
	for _, f := range []*big.Int{new(big.Int).SetUint64(st.BlockTotal), big.NewInt(50), perBlk, new(big.Int).SetUint64(me.BlockNum)} {
		votes.Mul(votes, f)
	}
	all := new(big.Int).Mul(s, big.NewInt(int64(len(st.Stats))))
	all.Add(all, st.VoteSum.Int)
	votes.Quo(votes, all)
	votes.Quo(votes, new(big.Int).SetUint64(me.ExceptedBlockNum))
	votes.Quo(votes, big.NewInt(100))
	blocks = new(big.Int).SetUint64(me.BlockNum)
	blocks.Mul(blocks, big.NewInt(50))
	blocks.Mul(blocks, perBlk)
	blocks.Quo(blocks, big.NewInt(100))
	return
}

// complete counts the days that ended by t.
func complete(t int64) int64 {
	for d := int64(0); ; d++ {
		if t < genesis+(d+1)*day {
			return d
		}
	}
}

// due is what a producer may still withdraw, up to which day, and whether that is all there will ever be.
func (w *world) due(s *sbp) (total *big.Int, to int64, final bool) {
	total = new(big.Int)
	if s.rewarded < 0 {
		return total, 0, true
	}
	to = complete(w.now - 3600)
	if s.revoked != 0 {
		if d := complete(s.revoked); d <= to {
			to, final = d, true
		}
	}
	for d := int64(0); d < to; d++ {
		if genesis+d*day >= s.rewarded {
			v, b := reward(d, s.name, d > w.fork)
			total.Add(total, v)
			total.Add(total, b)
		}
	}
	return
}

func (w *world) find(name string) *sbp {
	for _, s := range w.list {
		if s.name == name {
			return s
		}
	}
	return nil
}

// holder is the producer an address was ever used for.
func (w *world) holder(node types.Address) *sbp {
	for _, s := range w.list {
		for _, a := range s.his {
			if a == node {
				return s
			}
		}
	}
	return nil
}

func (w *world) insert(s *sbp) {
	i := 0
	for i < len(w.list) && bytes.Compare(w.list[i].key(), s.key()) < 0 {
		i++
	}
	w.list = append(w.list[:i], append([]*sbp{s}, w.list[i:]...)...)
}

// add puts a producer on record.
func (w *world) add(s *sbp) {
	a := w.Account(types.AddressGovernance)
	a.SetValue(s.key(), s.pack())
	for _, n := range s.his {
		v, _ := cabi.ABIGovernance.PackVariable(cabi.VariableNameRegisteredHisName, s.name)
		a.SetValue(cabi.GetHisNameKey(n, types.SNAPSHOT_GID), v)
	}
	if s.payee != s.owner {
		v := a.Value(s.payee.Bytes())
		if len(v) > 0 {
			v = append(append([]byte{}, v...), ',')
		}
		a.SetValue(s.payee.Bytes(), append(append([]byte{}, v...), s.name...))
	}
	a.SetBalance(core.ViteTokenId, new(big.Int).Add(a.Balance(core.ViteTokenId), s.amount))
	w.insert(s)
}

func (w *world) vote(u types.Address, name string) {
	v, _ := cabi.ABIGovernance.PackVariable(cabi.VariableNameVoteInfo, name)
	w.Account(types.AddressGovernance).SetValue(cabi.GetVoteInfoKey(u, types.SNAPSHOT_GID), v)
	w.votes[u] = name
}

// empty is a chain some time after the raise of the stake, without producers.
func empty(days int) *world {
	w := &world{World: builtin.New(now, genesis), votes: map[types.Address]string{}}
	if days > 1 {
		w.fork = int64(sym.Choose("day of the upgrade", 2))
	}
	raised := genesis + w.fork*day + 4000
	w.now = moment("now", 0, days)
	sym.Assume(w.now >= raised+3600)
	w.Snapshots = []*core.SnapshotBlock{fakechain.Snapshot(1, genesis), fakechain.Snapshot(upgrade.GetLeafUpgradePoint().Height, raised), fakechain.Snapshot(now, w.now)}
	w.Reader = util.NewVMConsensusReader(&stats{w})
	cond, err := cabi.ABIGovernance.PackVariable(cabi.VariableNameRegisterStakeParam, stake0, core.ViteTokenId, lock)
	if err != nil {
		panic(err)
	}
	g, err := cabi.ABIGovernance.PackVariable(cabi.VariableNameConsensusGroupInfo, uint8(25), int64(1), int64(3), uint8(2), uint8(100), uint16(48), uint8(0), core.ViteTokenId,
		uint8(1), cond, uint8(1), []byte{}, alice, zero, uint64(1))
	if err != nil {
		panic(err)
	}
	w.Account(types.AddressGovernance).SetValue(cabi.GetConsensusGroupInfoKey(types.SNAPSHOT_GID), g)
	return w
}

// moment is any second of one of the days from..to.
func moment(name string, from, to int) int64 {
	d := from + sym.Choose("day "+name, to-from)
	s := int64(sym.Uint16(name))*2 + int64(sym.Byte(name+" (odd)")&1)
	sym.Assume(s < day)
	return genesis + int64(d)*day + s
}

// at is a moment of the first days up to a limit.
func at(name string, days int, upto int64) int64 {
	t := moment(name, 0, days)
	sym.Assume(t <= upto)
	return t
}

// populated has the producers a (in any state, if that is asked for) and b.
func populated(days int, any bool) *world {
	if !any {
		days = 1
	}
	w := empty(days)
	s := &sbp{name: "a", producer: p0, payee: alice, owner: alice, his: []types.Address{p2, p0}}
	state := 3
	if any {
		state = sym.Choose("a is", 3)
	}
	switch state {
	case 0:
		s.amount, s.expires, s.rewarded = stake0, uint64(sym.Uint32("locked until")), at("rewarded until", days, w.now)
		if sym.Choose("long ago", 2) == 1 {
			s.old = true
		} else {
			s.payee = users[sym.Choose("payee", 2)]
		}
	case 1:
		s.amount, s.revoked = zero, at("revoked", days, w.now)
		s.rewarded = at("rewarded until", days, s.revoked)
		s.payee = bob
	case 2:
		s.amount, s.revoked, s.rewarded = zero, at("revoked", days, w.now), -1
	case 3:
		s.amount, s.expires, s.rewarded = stake0, 77, genesis+5
	}
	w.add(s)
	w.add(&sbp{name: "b", producer: p1, payee: carol, owner: bob, amount: stake, expires: 5, rewarded: genesis, his: []types.Address{p1}})
	w.vote(carol, "a")
	return w
}

func (w *world) names(of func(*sbp) bool) map[string]*sbp {
	m := map[string]*sbp{}
	for _, s := range w.list {
		if of(s) {
			m[s.name] = s
		}
	}
	return m
}

func sameList(l []*types.Registration, err error, want map[string]*sbp) bool {
	if err != nil || len(l) != len(want) {
		return false
	}
	seen := map[string]bool{}
	ok := true
	for _, r := range l {
		if seen[r.Name] || want[r.Name] == nil {
			return false
		}
		seen[r.Name] = true
		ok = sym.And(ok, want[r.Name].same(r))
	}
	return ok
}

// expect compares every way of asking with the record.
func (w *world) expect(id string) {
	db := w.View(types.AddressGovernance)
	gid := types.SNAPSHOT_GID
	all := new(big.Int)
	for _, s := range w.list {
		r, err := cabi.GetRegistration(db, gid, s.name)
		sym.Assert(err == nil && s.same(r), id)
		on, err := cabi.IsActiveRegistration(db, s.name, gid)
		sym.Assert(err == nil && sym.Iff(on, s.revoked == 0), "active-until-revoked")
		all.Add(all, s.amount)
	}
	l, err := cabi.GetAllRegistrationList(db, gid)
	sym.Assert(sameList(l, err, w.names(func(*sbp) bool { return true })), "the-list-of-producers")
	l, err = cabi.GetCandidateList(db, gid)
	sym.Assert(sameList(l, err, w.names(func(s *sbp) bool { return s.revoked == 0 })), "the-list-of-candidates")
	for _, u := range users {
		l, err = cabi.GetRegistrationList(db, gid, u)
		sym.Assert(sameList(l, err, w.names(func(s *sbp) bool { return s.owner == u })), "producers-are-listed-under-their-owner")
		l, err = cabi.GetRegistrationListByRewardWithdrawAddr(db, gid, u)
		sym.Assert(sameList(l, err, w.names(func(s *sbp) bool { return s.payee == u && s.owner != u })), "producers-are-listed-under-their-payee")
		v, err := cabi.GetVote(db, gid, u)
		n, ok := w.votes[u]
		sym.Assert(err == nil && (v != nil) == ok && (!ok || v.SbpName == n && v.VoteAddr == u), "votes-as-cast")
	}
	vl, err := cabi.GetVoteList(db, gid)
	sym.Assert(err == nil && len(vl) == len(w.votes), "the-list-of-votes")
	for _, v := range vl {
		sym.Assert(w.votes[v.VoteAddr] == v.SbpName, "the-list-of-votes")
	}
	sym.Assert(w.Account(types.AddressGovernance).Balance(core.ViteTokenId).Cmp(all) == 0, "the-contract-holds-the-stakes")
}

func pack(name string, args ...interface{}) []byte {
	d, err := cabi.ABIGovernance.PackMethod(name, args...)
	if err != nil {
		panic(err)
	}
	return d
}

// call sends a request and lets the contract execute it; refused reports that it was not even sent.
func (w *world) call(from types.Address, amount *big.Int, data []byte) (b *core.AccountBlock, refused bool, err error) {
	s, err := w.Send(from, types.AddressGovernance, core.ViteTokenId, amount, data)
	if err != nil {
		return nil, true, err
	}
	b, err = w.Receive(s, nil)
	return b, false, err
}

// request packs a request the old or the new way.
func request(old []string, newer string, name string, args ...interface{}) []byte {
	if k := sym.Choose("method", len(old)+1); k < len(old) {
		return pack(old[k], append([]interface{}{types.SNAPSHOT_GID, name}, args...)...)
	}
	return pack(newer, append([]interface{}{name}, args...)...)
}

func use(his []types.Address, node types.Address) []types.Address {
	for _, a := range his {
		if a == node {
			return his
		}
	}
	return append(append([]types.Address{}, his...), node)
}

// VerifH_Register: a name is registered by the first to stake for it, and again only by its owner once revoked and
// paid out; a producing address serves one name only.
func VerifH_Register() {
	name := []string{"a", "b", "c"}[sym.Choose("name", 3)]
	w := populated(sym.Param("days", 3), name == "a")
	from := users[sym.Choose("sender", 2)]
	k := sym.Choose("method", 4)
	node := p3
	if k < 2 {
		node = nodes[sym.Choose("producing address", len(nodes))]
	}
	payee := from
	token := core.ViteTokenId
	amount := sym.BigInt("amount", 96)
	var data []byte
	switch k {
	case 0:
		gid := types.SNAPSHOT_GID
		data = pack(cabi.MethodNameRegister, gid, name, node)
	case 1:
		payee = users[sym.Choose("payee asked", 3)]
		data = pack(cabi.MethodNameRegisterV3, name, node, payee)
	case 2: // with another token
		data = pack(cabi.MethodNameRegisterV3, name, node, from)
		token = tok
	case 3: // in a group that does not exist
		data = pack(cabi.MethodNameRegister, types.Gid{7}, name, node)
		token = types.TokenTypeId{}
	}
	ok := amount.Cmp(stake) == 0 && token == core.ViteTokenId
	if token == (types.TokenTypeId{}) {
		token = core.ViteTokenId
	}
	w.Account(from).SetBalance(token, new(big.Int).Lsh(big.NewInt(1), 96))
	req, err := w.Send(from, types.AddressGovernance, token, amount, data)
	sym.Assert(err == nil, "a-registration-can-be-asked")
	b, err := w.Receive(req, nil)
	s := w.find(name)
	if ok && s != nil {
		ok = sym.And(s.revoked != 0, s.owner == from)
		if ok {
			total, _, final := w.due(s)
			ok = final && total.Sign() == 0
		}
	}
	if h := w.holder(node); h != nil && h.name != name {
		ok = false
	}
	if err != nil {
		sym.Assert(!ok, "a-producer-can-register")
		w.expect("a-refused-registration-changes-nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok, "only-for-the-stake-and-a-free-name-and-address")
	sym.Assert(len(b.SendBlockList) == 0, "nothing-is-paid")
	n := &sbp{name: name, producer: node, payee: payee, owner: from, amount: stake, expires: now + lock, rewarded: w.now}
	if s != nil {
		n.his = s.his
		for i := range w.list {
			if w.list[i] == s {
				w.list[i] = n
			}
		}
	} else {
		w.insert(n)
	}
	n.his = use(n.his, node)
	w.expect("registered-as-asked")
	sym.Reach("registered")
}

// VerifH_Names: names are 1 to 40 letters, digits, underscores and dots, with single spaces inside.
func VerifH_Names() {
	w := empty(1)
	long := "0123456789012345678901234567890123456789"
	names := []string{"x", "Ab_.9", "a b", "a b c", long, "", " a", "a ", "a  b", "a,b", "a-b", "\u00e9", "a\n", long + "0"}
	k := sym.Choose("name", len(names))
	var data []byte
	amount := zero
	switch sym.Choose("request", 5) {
	case 0:
		data, amount = pack(cabi.MethodNameRegisterV3, names[k], p0, alice), stake
		w.Account(alice).SetBalance(core.ViteTokenId, new(big.Int).Set(stake))
	case 1:
		data, amount = pack(cabi.MethodNameRegister, types.SNAPSHOT_GID, names[k], p0), stake
		w.Account(alice).SetBalance(core.ViteTokenId, new(big.Int).Set(stake))
	case 2:
		data = pack(cabi.MethodNameVoteV3, names[k])
	case 3:
		data = pack(cabi.MethodNameVote, types.SNAPSHOT_GID, names[k])
	case 4:
		data, amount = pack(cabi.MethodNameRegister, types.DELEGATE_GID, names[k], p0), stake
		w.Account(alice).SetBalance(core.ViteTokenId, new(big.Int).Set(stake))
		k = len(names) // nobody registers for the delegate group
	}
	_, err := w.Send(alice, types.AddressGovernance, core.ViteTokenId, amount, data)
	sym.Assert((err == nil) == (k < 5), "only-well-formed-names")
	sym.Reach("names")
}

// VerifH_Revoke: an owner gets back exactly the stake, once, and not before it is due.
func VerifH_Revoke() {
	name := []string{"a", "c"}[sym.Choose("name", 2)]
	w := populated(sym.Param("days", 3), name == "a")
	from := users[sym.Choose("sender", 3)]
	b, refused, err := w.call(from, zero, request([]string{cabi.MethodNameRevoke, cabi.MethodNameRevokeV2}, cabi.MethodNameRevokeV3, name))
	sym.Assert(!refused, "a-revocation-can-be-asked")
	s := w.find(name)
	ok := s != nil && sym.And(s.revoked == 0, s.owner == from, s.expires <= now)
	sym.Assert((err == nil) == ok, "only-the-owner-revokes-and-only-when-due")
	if err != nil {
		sym.Assert(len(b.SendBlockList) == 0, "nothing-is-paid")
		w.expect("a-refused-revocation-changes-nothing")
		return
	}
	sym.Assert(len(b.SendBlockList) == 1, "the-stake-is-paid-once")
	p := b.SendBlockList[0]
	sym.Assert(sym.And(p.ToAddress == from, p.Amount.Cmp(s.amount) == 0, p.TokenId == core.ViteTokenId), "exactly-the-stake-is-paid-to-its-owner")
	s.amount, s.expires, s.revoked = zero, 0, w.now
	w.expect("revoked-and-the-rest-kept")
	sym.Reach("revoked")
	// the rewards due before the revocation are due after it
	if sym.Choose("again", 2) == 1 {
		_, _, err = w.call(from, zero, pack(cabi.MethodNameRevokeV3, name))
		sym.Assert(err != nil, "a-stake-is-returned-once")
		w.expect("a-refused-revocation-changes-nothing")
	}
}

// VerifH_Producer: only the owner of an active name changes its producing address, never to one of another name.
func VerifH_Producer() {
	name := []string{"a", "b", "c"}[sym.Choose("name", 3)]
	w := populated(1, name == "a")
	from := users[sym.Choose("sender", 2)]
	node := nodes[sym.Choose("producing address", len(nodes))]
	b, refused, err := w.call(from, zero, request([]string{cabi.MethodNameUpdateBlockProducingAddress, cabi.MethodNameUpdateBlockProducintAddressV2}, cabi.MethodNameUpdateBlockProducintAddressV3, name, node))
	sym.Assert(!refused, "a-change-can-be-asked")
	s := w.find(name)
	ok := s != nil && sym.And(s.revoked == 0, s.owner == from, s.producer != node)
	if h := w.holder(node); h != nil && h.name != name {
		ok = false
	}
	sym.Assert((err == nil) == ok && len(b.SendBlockList) == 0, "only-the-owner-and-only-to-a-free-address")
	if err == nil {
		s.producer, s.his = node, use(s.his, node)
		sym.Reach("changed")
	}
	w.expect("exactly-the-change-is-made")
	if err == nil {
		// the addresses now and before cannot be taken by anyone else
		o := map[string]string{"a": "b", "b": "a"}[name]
		_, _, err = w.call(w.find(o).owner, zero, pack(cabi.MethodNameUpdateBlockProducintAddressV3, o, node))
		sym.Assert(err != nil, "an-address-serves-one-name")
		w.expect("a-refused-change-changes-nothing")
	}
}

// VerifH_WithdrawAddress: only the owner of an active name changes its payee, and payees list exactly their names.
func VerifH_WithdrawAddress() {
	w := empty(1)
	names := []string{"aa", "a", "a a"}
	for k, n := range names {
		payee := carol
		switch sym.Choose("payee", 2+(2-k)/2) {
		case 1:
			payee = bob
		case 2:
			payee = alice
		}
		s := &sbp{name: n, producer: nodes[k], payee: payee, owner: []types.Address{alice, alice, bob}[k], amount: stake, expires: 9, rewarded: genesis, his: []types.Address{nodes[k]}}
		if k == 0 && s.payee == s.owner {
			s.old = true
		}
		if k == 1 && sym.Choose("revoked", 2) == 1 {
			s.amount, s.expires, s.revoked, s.rewarded = zero, 0, genesis+5, -1
		}
		w.add(s)
	}
	for step := 0; step < sym.Param("steps", 2); step++ {
		from := users[sym.Choose("sender", 2)]
		name := append(names, "c")[sym.Choose("name", 3+step)]
		payee := users[sym.Choose("payee asked", 2+step)]
		b, refused, err := w.call(from, zero, pack(cabi.MethodNameUpdateSBPRewardWithdrawAddress, name, payee))
		s := w.find(name)
		ok := s != nil && sym.And(s.revoked == 0, s.owner == from, s.payee != payee)
		sym.Assert(!refused && (err == nil) == ok && len(b.SendBlockList) == 0, "only-the-owner-changes-the-payee")
		if ok {
			s.payee = payee
			sym.Reach("changed")
		}
		w.expect("exactly-the-payee-is-changed")
		if !ok {
			return
		}
	}
}

// paid lets the token contract execute what the governance contract asked for, and returns what was minted for whom.
func (w *world) paid(b *core.AccountBlock) (*big.Int, types.Address) {
	if len(b.SendBlockList) == 0 {
		return new(big.Int), types.Address{}
	}
	sym.Assert(len(b.SendBlockList) == 1, "one-payment")
	s := b.SendBlockList[0]
	sym.Assert(s.ToAddress == types.AddressAsset && s.Amount.Sign() == 0, "a-reward-is-minted")
	supply, most := builtin.Big10(27), builtin.Big10(28)
	v, err := cabi.ABIAsset.PackVariable(cabi.VariableNameTokenInfo, "Vite Token", "VITE", supply, uint8(18), types.AddressGovernance, true, most, false, uint16(0))
	if err != nil {
		panic(err)
	}
	w.Account(types.AddressAsset).SetValue(cabi.GetTokenInfoKey(core.ViteTokenId), v)
	r, err := w.Receive(s, nil)
	m := builtin.Minted(r)
	sym.Assert(err == nil && len(m) == 1 && len(r.SendBlockList) == 1 && m[0].TokenId == core.ViteTokenId, "a-reward-is-minted")
	return m[0].Amount, m[0].ToAddress
}

// withdraw asks for the reward of a and compares the payment with what is due.
func (w *world) withdraw(from, to types.Address) (s *sbp, before int64, done bool) {
	b, refused, err := w.call(from, zero, request([]string{cabi.MethodNameWithdrawReward, cabi.MethodNameWithdrawRewardV2}, cabi.MethodNameWithdrawRewardV3, "a", to))
	s = w.find("a")
	ok := sym.And(s.rewarded >= 0, sym.Or(s.owner == from, s.payee == from))
	sym.Assert(!refused && (err == nil) == ok, "only-owner-and-payee-withdraw")
	if !ok {
		sym.Assert(len(b.SendBlockList) == 0, "nothing-is-paid")
		w.expect("a-refused-withdrawal-changes-nothing")
		return s, s.rewarded, false
	}
	total, upto, final := w.due(s)
	got, who := w.paid(b)
	sym.Assert(got.Cmp(total) == 0, "exactly-the-reward-of-the-days-due-is-paid")
	if total.Sign() > 0 {
		sym.Assert(who == to, "the-reward-goes-where-asked")
	}
	before = s.rewarded
	r, err := cabi.GetRegistration(w.View(types.AddressGovernance), types.SNAPSHOT_GID, "a")
	sym.Assert(err == nil && r != nil, "still-on-record")
	after := genesis + upto*day
	if final {
		after = -1
	}
	if !final && after < before {
		// nothing was due; see VerifH_WithdrawTwice
		sym.Assert(sym.Or(r.RewardTime == before, r.RewardTime == after), "days-paid-are-noted")
	} else {
		sym.Assert(r.RewardTime == after, "days-paid-are-noted")
	}
	s.rewarded = r.RewardTime
	w.expect("nothing-else-changes")
	return s, before, true
}

// VerifH_Withdraw: a withdrawal pays exactly the complete days that are due.
func VerifH_Withdraw() {
	w := populated(sym.Param("days", 4), true)
	if _, _, done := w.withdraw(users[sym.Choose("sender", 3)], carol); done {
		sym.Reach("withdrawn")
	}
}

// VerifH_WithdrawTwice: whenever withdrawals are made, together they pay every complete day since the registration
// once.
func VerifH_WithdrawTwice() {
	w := empty(sym.Param("days", 4))
	since := at("registered", sym.Param("days", 4), w.now)
	w.add(&sbp{name: "a", producer: p0, payee: bob, owner: alice, amount: stake, expires: 7, rewarded: since, his: []types.Address{p0}})
	w.withdraw(alice, carol)
	s := w.find("a")
	moved := s.rewarded < since
	// later
	later := moment("later", 0, sym.Param("days", 4))
	sym.Assume(later >= w.now)
	w.now = later
	w.Advance(now+1, later)
	// what is still due are days after those paid
	b, _, err := w.call(alice, zero, pack(cabi.MethodNameWithdrawRewardV3, "a", carol))
	sym.Assert(err == nil, "the-owner-withdraws")
	first := complete(since + day - 1) // the first complete day of the registration
	if p := complete(w.Snapshots[2].Timestamp.Unix() - 3600); p > first {
		first = p
	}
	want := new(big.Int)
	for d := first; d < complete(later-3600); d++ {
		v, bl := reward(d, "a", d > w.fork)
		want.Add(want, v)
		want.Add(want, bl)
	}
	got, _ := w.paid(b)
	if moved {
		sym.Assert(got.Cmp(want) == 0, "days-before-a-registration-are-not-paid-after-an-early-withdrawal")
	} else {
		sym.Assert(got.Cmp(want) == 0, "every-day-is-paid-once")
	}
	sym.Reach("twice")
}

// VerifH_Vote: an account votes for one active name at a time, until it cancels.
func VerifH_Vote() {
	name := []string{"a", "b", "c"}[sym.Choose("name", 3)]
	w := populated(1, name == "a")
	from := []types.Address{alice, carol, {0x31, 20: 1}}[sym.Choose("voter", 3)]
	_, refused, err := w.call(from, zero, request([]string{cabi.MethodNameVote}, cabi.MethodNameVoteV3, name))
	s := w.find(name)
	ok := s != nil && s.revoked == 0
	sym.Assert(!refused && (err == nil) == ok, "votes-are-for-active-names")
	if ok {
		w.votes[from] = name
		sym.Reach("voted")
	}
	w.expect("exactly-the-vote-is-cast")
	if sym.Choose("cancel", 2) == 0 {
		return
	}
	who := []types.Address{alice, carol}[sym.Choose("who cancels", 2)]
	data := pack(cabi.MethodNameCancelVoteV3)
	if sym.Choose("old way", 2) == 1 {
		data = pack(cabi.MethodNameCancelVote, types.SNAPSHOT_GID)
	}
	_, refused, err = w.call(who, zero, data)
	sym.Assert(!refused && err == nil, "votes-can-be-cancelled")
	delete(w.votes, who)
	w.expect("exactly-the-vote-is-cancelled")
	sym.Reach("cancelled")
}

// VerifH_DayReward: the published rewards of a day follow the formula, for any votes.
func VerifH_DayReward() {
	w := empty(4)
	votes := new(big.Int).Mul(sym.BigInt("votes", 24), builtin.Big10(15))
	made := []uint64{0, 1, 599}[sym.Choose("made", 3)]
	planned := []uint64{0, 600}[sym.Choose("planned", 2)]
	others := new(big.Int).Mul(big.NewInt(777), vite)
	st := &ccore.DayStats{Index: 1, BlockTotal: made + 1200, VoteSum: &ccore.BigInt{Int: builtin.Big10(26)}, Stats: map[string]*ccore.SbpStats{
		"a": {BlockNum: made, ExceptedBlockNum: planned, VoteCnt: &ccore.BigInt{Int: votes}, Name: "a"},
		"b": {BlockNum: 1200, ExceptedBlockNum: 1300, VoteCnt: &ccore.BigInt{Int: others}, Name: "b"},
	}}
	w.Reader = util.NewVMConsensusReader(&fixed{stats{w}, st})
	d := w.View(types.AddressGovernance)
	k := int64(sym.Choose("day", 3))
	st.Index = uint64(k)
	var m map[string]*contracts.Reward
	var err error
	if sym.Choose("asked by", 2) == 0 {
		m, err = contracts.CalcRewardByIndex(d, w.Reader, uint64(k))
	} else {
		var i uint64
		m, i, err = contracts.CalcRewardByCycle(d, w.Reader, k*day+moment("time of day", 0, 1))
		sym.Assert(err != nil || i == uint64(k), "the-day-asked")
	}
	if err != nil {
		sym.Assert(w.now-3600 < genesis+(k+1)*day, "past-days-have-rewards")
		return
	}
	sym.Assert(w.now-3600 >= genesis+(k+1)*day, "only-past-days-have-rewards")
	sym.Assert(len(m) == 2, "all-producers-of-the-day")
	for n, r := range m {
		v, b := rewardOf(st, n, k > w.fork)
		sym.Assert(sym.And(r.VoteReward.Cmp(v) == 0, r.BlockReward.Cmp(b) == 0, r.TotalReward.Cmp(new(big.Int).Add(v, b)) == 0), "a-reward-by-blocks-and-votes")
		if v.Sign() > 0 || b.Sign() > 0 {
			sym.Assert(r.BlockNum == st.Stats[n].BlockNum && r.ExpectedBlockNum == st.Stats[n].ExceptedBlockNum, "the-blocks-of-the-day")
		}
	}
	sym.Reach("rewards")
}

// fixed answers every day with the same figures.
type fixed struct {
	stats
	st *ccore.DayStats
}

func (f *fixed) DayStats(start, end uint64) ([]*ccore.DayStats, error) {
	sym.Assert(start == f.st.Index && end == f.st.Index, "the-day-asked")
	return []*ccore.DayStats{f.st}, nil
}
