package vm

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

var verifHeights = []uint64{1000000000, 1}

// verifWord is a stack word: any word, or (for arithmetic that solvers find hard) any small signed number.
func verifWord(name string, shape int) []byte {
	b := make([]byte, 32)
	if shape == 0 {
		sym.Fill(name, b)
		return b
	}
	if shape == 2 {
		for i := range b {
			b[i] = 0xff
		}
	}
	b[31] = sym.Byte(name)
	b[30] ^= sym.Byte(name) & 1
	return b
}

// verifOp executes one instruction on the given operands (top of stack first) and returns its result.
func verifOp(op opCode, args ...[]byte) *big.Int {
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	h := verifHeights[sym.Choose("era", sym.Param("eras", 1))]
	vm := NewVM(nil)
	vm.latestSnapshotHeight = h
	vm.i = newInterpreter(h, sym.Choose("offchain", sym.Param("eras", 1)) == 1)
	vm.gasTable = util.QuotaTableByHeight(h)
	addr := types.Address{1}
	c := newContract(&ledger.AccountBlock{AccountAddress: addr}, nil, &ledger.AccountBlock{ToAddress: addr}, nil, 1000000)
	c.intPool = util.PoolOfIntPools.Get()
	st, mem := newStack(), newMemory()
	below := big.NewInt(77)
	st.push(below)
	for i := len(args) - 1; i >= 0; i-- {
		st.push(new(big.Int).SetBytes(args[i]))
	}
	o := vm.i.instructionSet[op]
	sym.Assert(o.valid && o.validateStack(st) == nil, "instruction-defined")
	pc := uint64(0)
	_, err := o.execute(&pc, vm, c, mem, st)
	sym.Assert(err == nil && st.len() == 2 && pc == 0, "takes-its-operands-and-leaves-one-result")
	r := new(big.Int).Set(st.pop())
	// integers recycled by the instruction must not be the ones still in use
	c.intPool.Get().SetUint64(99)
	c.intPool.Get().SetUint64(98)
	sym.Assert(st.pop().Cmp(big.NewInt(77)) == 0 && below.Cmp(big.NewInt(77)) == 0, "rest-of-stack-untouched")
	sym.Assert(sym.And(r.Sign() >= 0, r.Cmp(verifPow(256)) < 0), "result-is-a-word")
	return r
}

func verifBig(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func verifPow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// verifMod is x modulo 2^256 in [0, 2^256).
func verifMod(x *big.Int) *big.Int { return new(big.Int).And(x, new(big.Int).Sub(verifPow(256), big.NewInt(1))) }

func verifSigned(b []byte) *big.Int {
	x := verifBig(b)
	if b[0]&0x80 != 0 {
		return x.Sub(x, verifPow(256))
	}
	return x
}

func verifBool(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

// VerifH_Simple: the instructions that need no division or shift.
func VerifH_Simple() {
	ops := []opCode{ADD, MUL, SUB, LT, GT, SLT, SGT, EQ, AND, OR, XOR, ISZERO, NOT, BYTE}
	op := ops[sym.Choose("op", len(ops))]
	x, y := verifWord("x", 0), verifWord("y", 0)
	if op == MUL {
		// the product of two words is taken structurally; small factors are solved
		s := sym.Choose("shape", 3)
		x, y = verifWord("x", s), verifWord("y", s)
	}
	if op == BYTE && sym.Choose("near", 2) == 1 {
		x = verifWord("x", 1)
	}
	var got, want *big.Int
	X, Y := verifBig(x), verifBig(y)
	if op == ISZERO || op == NOT {
		got = verifOp(op, x)
	} else {
		got = verifOp(op, x, y)
	}
	switch op {
	case ADD:
		want = verifMod(new(big.Int).Add(X, Y))
	case MUL:
		want = verifMod(new(big.Int).Mul(X, Y))
	case SUB:
		want = verifMod(new(big.Int).Sub(new(big.Int).Add(X, verifPow(256)), Y))
	case LT:
		want = verifBool(X.Cmp(Y) < 0)
	case GT:
		want = verifBool(X.Cmp(Y) > 0)
	case SLT:
		want = verifBool(verifSigned(x).Cmp(verifSigned(y)) < 0)
	case SGT:
		want = verifBool(verifSigned(x).Cmp(verifSigned(y)) > 0)
	case EQ:
		want = verifBool(sym.EqBytes(x, y))
	case ISZERO:
		want = verifBool(sym.EqBytes(x, make([]byte, 32)))
	case BYTE:
		want = big.NewInt(0)
		for i := 0; i < 32; i++ {
			if X.Cmp(big.NewInt(int64(i))) == 0 {
				want = new(big.Int).SetUint64(uint64(y[i]))
			}
		}
	default:
		w := make([]byte, 32)
		for i := range w {
			switch op {
			case AND:
				w[i] = x[i] & y[i]
			case OR:
				w[i] = x[i] | y[i]
			case XOR:
				w[i] = x[i] ^ y[i]
			case NOT:
				w[i] = ^x[i]
			}
		}
		want = verifBig(w)
	}
	sym.Assert(sym.EqBig(got, want), "result-as-specified")
	sym.Reach("done")
}

// VerifH_Division: quotients and remainders round toward zero, division by zero gives zero.
func VerifH_Division() {
	ops := []opCode{DIV, SDIV, MOD, SMOD, ADDMOD, MULMOD}
	op := ops[sym.Choose("op", len(ops))]
	shape := sym.Choose("shape", 3)
	x := verifWord("x", shape)
	y := verifWord("y", sym.Choose("yshape", 2)*shape)
	X, Y := verifBig(x), verifBig(y)
	var got, want *big.Int
	zero := big.NewInt(0)
	switch op {
	case DIV:
		got = verifOp(op, x, y)
		want = zero
		if Y.Sign() != 0 {
			want = new(big.Int).Quo(X, Y)
		}
	case MOD:
		got = verifOp(op, x, y)
		want = zero
		if Y.Sign() != 0 {
			want = new(big.Int).Rem(X, Y)
		}
	case SDIV:
		got = verifOp(op, x, y)
		want = zero
		if Y.Sign() != 0 {
			want = verifMod(new(big.Int).Quo(verifSigned(x), verifSigned(y)))
		}
	case SMOD:
		got = verifOp(op, x, y)
		want = zero
		if Y.Sign() != 0 {
			want = verifMod(new(big.Int).Rem(verifSigned(x), verifSigned(y)))
		}
	default:
		z := verifWord("z", shape&1)
		Z := verifBig(z)
		got = verifOp(op, x, y, z)
		want = zero
		if Z.Sign() != 0 {
			if op == ADDMOD {
				want = new(big.Int).Rem(new(big.Int).Add(X, Y), Z)
			} else {
				want = new(big.Int).Rem(new(big.Int).Mul(X, Y), Z)
			}
		}
	}
	sym.Assert(sym.EqBig(got, want), "result-as-specified")
	sym.Reach("done")
}

// VerifH_Shifts: shifts and sign extension.
func VerifH_Shifts() {
	ops := []opCode{SHL, SHR, SAR, SIGNEXTEND}
	op := ops[sym.Choose("op", len(ops))]
	n := make([]byte, 32)
	far := sym.Choose("far", 2) == 1
	if far {
		sym.Fill("n", n)
		if op == SIGNEXTEND {
			sym.Assume(verifBig(n).Cmp(big.NewInt(31)) >= 0)
		} else {
			sym.Assume(verifBig(n).Cmp(big.NewInt(256)) >= 0)
		}
	} else {
		n[31] = sym.Byte("n")
		if op == SIGNEXTEND {
			sym.Assume(n[31] < 31)
		}
	}
	y := verifWord("y", 0)
	Y := verifBig(y)
	got := verifOp(op, n, y)
	var want *big.Int
	switch op {
	case SHL:
		want = big.NewInt(0)
		if !far {
			want = verifMod(new(big.Int).Lsh(Y, uint(n[31])))
		}
	case SHR:
		want = big.NewInt(0)
		if !far {
			want = new(big.Int).Rsh(Y, uint(n[31]))
		}
	case SAR:
		if far {
			want = big.NewInt(0)
			if y[0]&0x80 != 0 {
				want = verifMod(big.NewInt(-1))
			}
		} else {
			want = verifMod(new(big.Int).Rsh(verifSigned(y), uint(n[31])))
		}
	case SIGNEXTEND:
		want = Y
		if !far {
			// byte k (from the right) is the sign byte
			w := make([]byte, 32)
			k := n[31]
			var ext byte
			for i := 0; i < 31; i++ {
				if k == byte(i) && y[31-i]&0x80 != 0 {
					ext = 0xff
				}
			}
			for i := 0; i < 32; i++ {
				if byte(i) <= k {
					w[31-i] = y[31-i]
				} else {
					w[31-i] = ext
				}
			}
			want = verifBig(w)
		}
	}
	if op == SAR && far && Y.Sign() == 0 {
		sym.Assert(sym.Or(sym.EqBig(got, want), sym.EqBig(got, verifMod(big.NewInt(-1)))), "result-as-specified")
		sym.Assert(sym.EqBig(got, want), "sar-of-zero-by-256-or-more")
	}
	sym.Assert(sym.EqBig(got, want), "result-as-specified")
	sym.Reach("done")
}

// VerifH_Exp: EXP is repeated multiplication modulo 2^256.
func VerifH_Exp() {
	exps := []uint64{0, 1, 2, 3, 6, 11}
	e := exps[sym.Choose("exp", len(exps))]
	n := make([]byte, 32)
	n[31] = byte(e)
	x := verifWord("x", sym.Choose("shape", 3))
	got := verifOp(EXP, x, n)
	want := big.NewInt(1)
	for i := uint64(0); i < e; i++ {
		want = verifMod(new(big.Int).Mul(want, verifBig(x)))
	}
	sym.Assert(sym.EqBig(got, want), "result-as-specified")
	sym.Reach("done")
}

// VerifH_Exp2: powers of two
func VerifH_Exp2() {
	// powers of two reach every position of the exponent
	m := make([]byte, 32)
	m[31] = sym.Byte("small")
	two := make([]byte, 32)
	two[31] = 2
	p := verifOp(EXP, two, m)
	sym.Assert(sym.EqBig(p, new(big.Int).Lsh(big.NewInt(1), uint(m[31]))), "power-of-two")
	sym.Reach("done")
}
