package c09

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

const (
	section  = 280     // quota per section
	sections = 3571    // sections
	perBlock = 1000000 // the most one block may use
	gap      = 21000 * 74
	height   = 100000000 // after every upgrade
)

// db is what the ledger says about the account.
type db struct {
	global    uint64
	used      []types.QuotaInfo
	open      []*ledger.AccountBlock
	latest    *ledger.AccountBlock
	confirmed uint64
	asked     types.Hash
}

func (d *db) GetGlobalQuota() types.QuotaInfo                             { return types.QuotaInfo{QuotaUsedTotal: d.global} }
func (d *db) GetQuotaUsedList(types.Address) []types.QuotaInfo            { return d.used }
func (d *db) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock   { return d.open }
func (d *db) GetLatestAccountBlock(types.Address) (*ledger.AccountBlock, error) { return d.latest, nil }
func (d *db) GetConfirmedTimes(h types.Hash) (uint64, error) {
	d.asked = h
	return d.confirmed, nil
}

func start() {
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	quota.InitQuotaConfig(false, false)
}

// congestion is the use of the whole chain: none, the most without effect, and levels with an effect.
func congestion(name string) uint64 {
	switch sym.Choose(name, sym.Param("levels", 6)) {
	case 0:
		return 0
	case 1:
		return 50 * gap
	case 2:
		return 50*gap + 1
	case 3:
		return 500 * gap
	case 4:
		return 173*gap - 5
	}
	return 1 << 62
}

func stakeQuota(d *db, amount *big.Int, h uint64) uint64 {
	q, err := quota.GetQuota(d, types.Address{1}, amount, h)
	sym.Assert(err == nil, "quota-of-a-stake")
	return q.StakeQuotaPerSnapshotBlock()
}

// VerifH_Stake: a stake earns quota q per snapshot exactly when it is at least the amount asked for q.
func VerifH_Stake() {
	start()
	stakeEarns()
}

// VerifH_StakeTestnet: the same with the prices of the test network.
func VerifH_StakeTestnet() {
	start()
	quota.InitQuotaConfig(false, true)
	stakeEarns()
}

func stakeEarns() {
	d := &db{}
	amount := sym.BigInt("stake", 128)
	got := stakeQuota(d, amount, height)
	sym.Assert(got%section == 0, "whole-sections")
	sym.Assert(got <= section*sections, "at-most-the-last-section")
	if got > 0 {
		enough, err := quota.CalcStakeAmountByQuota(got)
		sym.Assert(err == nil, "amount-for-quota")
		sym.Assert(amount.Cmp(enough) >= 0, "earned-quota-is-paid-for")
	}
	if got < section*sections {
		more := got + 1 + uint64(sym.Choose("missing", 2)*(section-1))
		need, err := quota.CalcStakeAmountByQuota(more)
		sym.Assert(err == nil, "amount-for-more")
		sym.Assert(amount.Cmp(need) < 0, "paid-quota-is-earned")
	}
	sym.Reach("stake")
}

// VerifH_AmountForQuota: the amount asked grows with the quota and exists exactly up to the last section.
func VerifH_AmountForQuota() {
	start()
	r := uint64(sym.Uint16("rest"))
	sym.Assume(r < section)
	q := uint64(sym.Choose("section", sections+10))*section + r
	a, err := quota.CalcStakeAmountByQuota(q)
	if q > section*sections {
		sym.Assert(err != nil, "no-amount-beyond-the-last-section")
		return
	}
	sym.Assert(err == nil, "amount")
	if q == 0 {
		sym.Assert(a.Sign() == 0, "nothing-costs-nothing")
	} else {
		b, err := quota.CalcStakeAmountByQuota(q - 1)
		sym.Assert(err == nil && a.Cmp(b) >= 0 && a.Sign() > 0, "more-quota-costs-no-less")
	}
	sym.Reach("amount")
}

// VerifH_Work: the difficulty asked for a quota earns it, and no smaller difficulty does.
func VerifH_Work() {
	start()
	d := &db{global: congestion("chain use")}
	q := uint64(1 + 280*uint64(sym.Choose("section", sym.Param("sections", 3571))*3571/sym.Param("sections", 3571)))
	q += uint64(sym.Choose("rest", 2) * 279)
	if q > perBlock {
		_, err := quota.CalcPoWDifficulty(d, q, types.Quota{}, height)
		sym.Assert(err != nil, "no-work-beyond-the-limit")
		return
	}
	current := sym.Uint64("current")
	sym.Assume(current < q)
	diff, err := quota.CalcPoWDifficulty(d, q, types.NewQuota(0, current, 0, 0, false, 0), height)
	sym.Assert(err == nil, "difficulty")
	_, add, err := quota.GetQuotaForBlock(d, types.Address{1}, nil, diff, height)
	sym.Assert(err == nil && add >= q, "the-work-asked-earns-the-quota")
	less := new(big.Int).Sub(diff, big.NewInt(1))
	_, add, err = quota.GetQuotaForBlock(d, types.Address{1}, nil, less, height)
	sym.Assert(err == nil && add < q, "less-work-earns-less")
	zero, err := quota.CalcPoWDifficulty(d, q, types.NewQuota(0, q+uint64(sym.Uint32("spare")), 0, 0, false, 0), height)
	sym.Assert(err == nil && zero.Sign() == 0, "no-work-when-quota-suffices")
	sym.Reach("work")
}

// VerifH_Congestion: the more the whole chain is used, the less a stake or a work earns.
func VerifH_Congestion() {
	start()
	// steps of one level chain to any distance
	l := sym.Choose("level", 510)
	var lo, hi uint64
	if sym.Param("alllevels", 0) == 1 || l < 2 || l > 48 && l < 54 || l > 497 && l < 502 || l == 277 {
		lo = uint64(l)*gap + uint64(sym.Uint32("chain use")&0x1fffff)
		hi = lo + uint64(sym.Uint32("more")&0x1fffff)
	} else { // elsewhere the middle of a level and the next
		lo = uint64(l)*gap + gap/2
		hi = lo + gap
	}
	ql, ul, cl := quota.CalcQc(&db{global: lo}, height)
	qh, uh, ch := quota.CalcQc(&db{global: hi}, height)
	sym.Assert(ul == lo && uh == hi, "use-reported")
	sym.Assert(sym.Implies(cl, ch), "congestion-starts-once")
	sym.Assert(sym.Iff(cl, lo > 50*gap), "congestion-starts-at-the-line")
	sym.Assert(ql != nil && qh != nil && ql.Cmp(qh) >= 0 && qh.Sign() > 0, "more-use-earns-less")
	sym.Assert(ql.Cmp(big.NewInt(1e18)) <= 0 && cl == (ql.Cmp(big.NewInt(1e18)) < 0), "never-more-than-without-use")
	_, _, before := quota.CalcQc(&db{global: hi}, 1)
	sym.Assert(!before, "no-congestion-before-the-upgrade")
	sym.Reach("congestion")
}

// VerifH_CongestedStake: under congestion a stake earns what the reduced stake would without.
func VerifH_CongestedStake() {
	start()
	use := congestion("chain use")
	amount := sym.BigInt("stake", 96)
	qc, _, c := quota.CalcQc(&db{global: use}, height)
	reduced := amount
	if c {
		reduced = new(big.Int).Div(new(big.Int).Mul(amount, qc), big.NewInt(1e18))
	}
	n := sym.Param("sections", 20)
	want := uint64(section * (sections - sym.Choose("section", n+1)*sections/n))
	least, _ := quota.CalcStakeAmountByQuota(want)
	sym.Assume(reduced.Cmp(least) >= 0)
	if want < section*sections {
		next, _ := quota.CalcStakeAmountByQuota(want + 1)
		sym.Assume(reduced.Cmp(next) < 0)
	}
	got := stakeQuota(&db{global: use}, amount, height)
	sym.Assert(got == want, "congested-stake-earns-what-the-reduced-stake-would")
	sym.Reach("congested")
}

// window is an arbitrary window of use and what is available after it, before and after open blocks.
func window(d *db, stake uint64, n int) (avail, open uint64) {
	var suffix, best uint64
	count := uint64(0)
	if n > 0 {
		count = uint64(sym.Choose("blocks", 2))
	}
	for i := 0; i < n; i++ {
		d.used = append(d.used, types.QuotaInfo{BlockCount: count, QuotaTotal: uint64(sym.Uint32("stake quota used"))})
	}
	// what is available is the largest sum, over the snapshots i.. to the last confirmed one, of earned less used, or nothing
	for i := n - 2; i >= 0; i-- {
		suffix += stake - d.used[i].QuotaTotal // wraps; compared as signed
		if int64(suffix) > int64(best) {
			best = suffix
		}
	}
	if n > 0 {
		avail, open = best+stake, d.used[n-1].QuotaTotal
	}
	return
}

func someStake() (*big.Int, uint64) {
	k := sym.Choose("stake", 3)
	q := uint64([]int{0, 21000, 280 * 3571}[k])
	amount, err := quota.CalcStakeAmountByQuota(q)
	sym.Assert(err == nil, "amount-for-quota")
	return amount, q
}

// VerifH_Window: quota accumulates over the window, what was used is gone, and nothing is granted beyond it.
func VerifH_Window() {
	start()
	d := &db{}
	amount, stake := someStake()
	avail, open := window(d, stake, sym.Choose("window", sym.Param("window", 4)+1))
	addr := types.Address{1}
	q, err := quota.GetQuota(d, addr, amount, height)
	sym.Assert(q.StakeQuotaPerSnapshotBlock() == stake, "stake-quota")
	sym.Assert(q.SnapshotCurrent() == avail, "available-before-open-blocks")
	sym.Assert(!q.Blocked() && q.BlockReleaseHeight() == 0 && q.Avg() == 0, "not-blocked")
	current := uint64(0)
	if open > avail {
		sym.Assert(err == util.ErrInvalidUnconfirmedQuota, "open-blocks-used-too-much")
	} else {
		sym.Assert(err == nil, "no-error")
		current = avail - open
	}
	sym.Assert(q.Current() == current, "current-quota")
	sc, err := quota.GetSnapshotCurrentQuota(d, addr, amount, height)
	sym.Assert(err == nil && sc == avail, "snapshot-current-quota")
	t, add, err := quota.GetQuotaForBlock(d, addr, amount, nil, height)
	if open > avail {
		sym.Assert(err == util.ErrInvalidUnconfirmedQuota && t == 0 && add == 0, "no-block-after-using-too-much")
	} else {
		sym.Assert(err == nil && add == 0, "block-without-work")
		sym.Assert(sym.And(t <= current, t <= perBlock, sym.Or(t == current, t == perBlock)), "quota-of-a-block")
	}
	sym.Reach("window")
}

// VerifH_BlockQuota: work counts once per snapshot, and a contract that ran out of quota waits.
func VerifH_BlockQuota() {
	start()
	d := &db{}
	amount, stake := someStake()
	avail, open := window(d, stake, 2)
	addr := types.Address{1}
	var work *big.Int
	var workQuota uint64
	switch sym.Choose("work", 3) {
	case 1:
		work = new(big.Int)
	case 2:
		work, _ = quota.CalcPoWDifficulty(d, 28000, types.Quota{}, height)
		workQuota = 28000
	}
	powOpen := false
	for i, m := 0, sym.Choose("open blocks", 3); i < m; i++ {
		b := &ledger.AccountBlock{}
		if sym.Choose("with work", 2) == 1 {
			b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8}
			powOpen = true
		}
		d.open = append(d.open, b)
	}
	sym.Assert(quota.CanPoW(d, addr) == !powOpen, "one-work-per-snapshot")
	blocked, wait := false, uint64(0)
	if sym.Choose("last block", 2) == 1 {
		d.latest = &ledger.AccountBlock{BlockType: sym.Byte("type of the last block"), Hash: types.Hash{7}}
		d.confirmed = uint64(sym.Uint16("confirmations"))
	}
	if sym.Choose("contract", 2) == 1 {
		addr = types.AddressAsset
		if d.latest != nil && d.latest.BlockType == ledger.BlockTypeReceiveError && d.confirmed < 75 {
			blocked, wait = true, 75-d.confirmed
		}
	}
	q, err := quota.GetQuota(d, addr, amount, height)
	sym.Assert(q.SnapshotCurrent() == avail, "available-before-open-blocks")
	sym.Assert(q.Blocked() == blocked && q.BlockReleaseHeight() == wait, "blocked-after-running-out")
	current := uint64(0)
	if open > avail {
		sym.Assert(err == util.ErrInvalidUnconfirmedQuota, "open-blocks-used-too-much")
	} else if !blocked {
		current = avail - open
	}
	sym.Assert(q.Current() == current, "current-quota")
	ok, after := quota.CheckQuota(d, q, addr)
	sym.Assert(ok == !blocked && (!blocked || after == wait), "waits-until-released")
	t, add, err := quota.GetQuotaForBlock(d, addr, amount, work, height)
	switch {
	case workQuota > 0 && powOpen:
		sym.Assert(err == util.ErrCalcPoWTwice && t == 0 && add == 0, "no-second-work")
	case open > avail:
		sym.Assert(err == util.ErrInvalidUnconfirmedQuota && t == 0 && add == 0, "no-block-after-using-too-much")
	case blocked:
		sym.Assert(err == nil && t == 0 && add == 0, "no-quota-while-blocked")
	default:
		want := current + workQuota
		sym.Assert(err == nil && add == workQuota, "work-counted")
		sym.Assert(sym.And(t <= want, t <= perBlock, sym.Or(t == want, t == perBlock)), "quota-of-a-block")
	}
	sym.Reach("block")
}

// VerifH_Average: a contract may receive when it has what its blocks used on average.
func VerifH_Average() {
	start()
	d := &db{}
	amount, _ := someStake()
	var used, count uint64
	for i, n := 0, sym.Choose("window", 4); i < n; i++ {
		q := types.QuotaInfo{BlockCount: uint64(sym.Choose("blocks", 4)), QuotaUsedTotal: uint64(sym.Uint16("quota used"))}
		d.used = append(d.used, q)
		used += q.QuotaUsedTotal
		count += q.BlockCount
	}
	q, err := quota.GetQuota(d, types.AddressAsset, amount, height)
	sym.Assert(err == nil, "no-error")
	if count > 0 {
		sym.Assert(sym.And(q.Avg()*count <= used, used < (q.Avg()+1)*count), "average-use")
	} else {
		sym.Assert(q.Avg() == 0, "average-of-nothing")
	}
	ok, _ := quota.CheckQuota(d, q, types.AddressAsset)
	sym.Assert(ok == (q.Current() >= q.Avg()), "enough-to-receive")
	sym.Reach("average")
}

// VerifH_BlockUse: the part of a block's use that counts against the stake is what exceeds its work.
func VerifH_BlockUse() {
	start()
	d := &db{}
	b := &ledger.AccountBlock{QuotaUsed: uint64(sym.Uint32("used"))}
	w := uint64(0)
	if sym.Choose("with work", 2) == 1 {
		w = uint64(280 * (1 + sym.Choose("work", 3)*1785))
		b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8}
		b.Difficulty, _ = quota.CalcPoWDifficulty(d, w, types.Quota{}, height)
	}
	got, err := quota.CalcBlockQuotaUsed(d, b, height)
	want := uint64(0)
	if b.QuotaUsed > w {
		want = b.QuotaUsed - w
	}
	sym.Assert(err == nil && got == want, "use-beyond-work")
	sym.Reach("use")
}
