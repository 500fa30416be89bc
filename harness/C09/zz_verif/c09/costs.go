package c09

import (
	"errors"

	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// VerifH_Multiplier: a quota multiplier never wraps around.
func VerifH_Multiplier() {
	cost := sym.Uint64("cost")
	m := sym.Choose("multiplier", 256)
	got, err := util.MultipleCost(cost, byte(m))
	k := uint64(m)
	if m < 10 {
		sym.Assert(err != nil, "multiplier-at-least-one")
	} else if err == nil {
		sym.Assert(sym.Or(m == 10, cost <= ^uint64(0)/k), "no-wrap")
		sym.Assert(m == 10 || got == cost*k/10, "multiplied")
		if m == 10 {
			sym.Assert(got == cost, "once")
		}
		if m == 20 {
			sym.Assert(cost < 1<<63 && got == cost*20/10, "twice")
		}
		if m == 100 {
			sym.Assert(cost < 1<<60 && got == cost*100/10, "ten-times")
		}
	} else {
		sym.Assert(cost > 1<<56 && m > 10, "refused-only-when-too-large")
	}
	sym.Reach("multiplier")
}

// VerifH_Costs: costs never wrap around, and accounting of a block's use adds up.
func VerifH_Costs() {
	cost := sym.Uint64("cost")
	left := sym.Uint64("left")
	rest, err := util.UseQuota(left, cost)
	if cost > left {
		sym.Assert(err == util.ErrOutOfQuota && rest == 0, "out-of-quota")
	} else {
		sym.Assert(err == nil && rest == left-cost, "quota-left")
	}
	rest, err = util.UseQuotaWithFlag(left, cost, true)
	sym.Assert((err != nil) == (cost > left) && (err != nil || rest == left-cost), "quota-left-with-flag")
	// use of a block
	total, add := sym.Uint64("total"), sym.Uint64("addition")
	sym.Assume(sym.And(add <= total, left <= total))
	var e error
	switch sym.Choose("error", 3) {
	case 1:
		e = util.ErrOutOfQuota
	case 2:
		e = errors.New("any")
	}
	paying := sym.Choose("paying", 2) == 1
	st, all := util.CalcQuotaUsed(paying, total, add, left, e)
	if !paying || e == util.ErrOutOfQuota {
		sym.Assert(st == 0 && all == 0, "nothing-used")
	} else {
		sym.Assert(all == total-left, "used-is-granted-less-left")
		sym.Assert(sym.And(st <= all, sym.Or(sym.And(st == 0, all <= add), st == all-add)), "stake-part")
	}
	sym.Reach("costs")
}

// VerifH_RequestCost: the cost of a request grows by the same amount with every byte of data.
func VerifH_RequestCost() {
	start()
	h := uint64(sym.Choose("height", 2) * 100000000)
	t := util.QuotaTableByHeight(h)
	n := sym.Choose("length", 4) * 50
	base, err := util.RequestQuotaCost(nil, t)
	sym.Assert(err == nil && base == t.TxQuota && base > 0, "request-without-data")
	c, err := util.RequestQuotaCost(make([]byte, n), t)
	sym.Assert(err == nil && c == base+uint64(n)*t.TxDataQuota && t.TxDataQuota > 0, "request-with-data")
	k := sym.Byte("snapshots")
	g := sym.Uint64("base")
	got, err := util.BlockGasCost(make([]byte, n), g, k, t)
	extra := uint64(n)*t.TxDataQuota + uint64(k)*t.SnapshotQuota
	if g > ^uint64(0)-extra {
		sym.Assert(err != nil, "cost-too-large")
	} else {
		sym.Assert(err == nil && got == g+extra, "cost-of-a-block")
	}
	sym.Reach("request")
}
