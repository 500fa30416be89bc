package vm

import (
	"bytes"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

// verifDb is the state of one contract: a storage of a few slots and an unlimited balance.
type verifDb struct {
	interfaces.VmDb
	addr     types.Address
	keys     [][]byte
	vals     [][]byte
	orig     [][]byte
	logs     []*ledger.VmLog
	code     []byte
	balance  *big.Int
	accessed int
}

func (d *verifDb) Address() *types.Address { return &d.addr }
func (d *verifDb) find(key []byte) int {
	for i, k := range d.keys {
		if sym.EqBytes(k, key) {
			return i
		}
	}
	return -1
}
func (d *verifDb) GetValue(key []byte) ([]byte, error) {
	if i := d.find(key); i >= 0 {
		return d.vals[i], nil
	}
	return nil, nil
}
func (d *verifDb) GetOriginalValue(key []byte) ([]byte, error) {
	if i := d.find(key); i >= 0 {
		return d.orig[i], nil
	}
	return nil, nil
}
func (d *verifDb) SetValue(key []byte, value []byte) error {
	if i := d.find(key); i >= 0 {
		d.vals[i] = value
		return nil
	}
	d.keys, d.vals, d.orig = append(d.keys, key), append(d.vals, value), append(d.orig, nil)
	return nil
}
func (d *verifDb) GetBalance(*types.TokenTypeId) (*big.Int, error) {
	return new(big.Int).Set(d.balance), nil
}
func (d *verifDb) AddLog(l *ledger.VmLog)                                { d.logs = append(d.logs, l) }
func (d *verifDb) PrevAccountBlock() (*ledger.AccountBlock, error)       { return nil, nil }
func (d *verifDb) GetContractCode() ([]byte, error)                      { return d.code, nil }
func (d *verifDb) LatestSnapshotBlock() (*ledger.SnapshotBlock, error)   { return verifSnapshot(), nil }
func (d *verifDb) GetConfirmSnapshotHeader(types.Hash) (*ledger.SnapshotBlock, error) {
	return verifSnapshot(), nil
}
func (d *verifDb) GetContractCodeBySnapshotBlock(*types.Address, *ledger.SnapshotBlock) ([]byte, error) {
	return d.code, nil
}
func (d *verifDb) GetContractMetaInSnapshot(types.Address, *ledger.SnapshotBlock) (*ledger.ContractMeta, error) {
	return &ledger.ContractMeta{QuotaRatio: 10}, nil
}

func verifSnapshot() *ledger.SnapshotBlock {
	t := time.Unix(1600000000, 0)
	return &ledger.SnapshotBlock{Height: 7, Timestamp: &t}
}

type verifStatus struct{ read bool }

func (*verifStatus) Seed() (uint64, error)                { return 5, nil }
func (*verifStatus) Random() (uint64, error)              { return 6, nil }
func (s *verifStatus) SnapshotBlock() *ledger.SnapshotBlock {
	s.read = true
	return verifSnapshot()
}

var verifHeights = []uint64{1000000000, 1}

const verifQuota = 1000000

func verifVM(era int, offchain bool, code, data []byte) (*VM, *contract, *verifDb) {
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox())
	h := verifHeights[era]
	nodeConfig.log = log15.New("module", "vm")
	nodeConfig.interpreterLog = nodeConfig.log
	vm := NewVM(nil)
	vm.latestSnapshotHeight = h
	vm.globalStatus = &verifStatus{}
	vm.i = newInterpreter(h, offchain)
	vm.gasTable = util.QuotaTableByHeight(h)
	addr := types.Address{1}
	db := &verifDb{addr: addr, balance: big.NewInt(1000)}
	c := newContract(&ledger.AccountBlock{AccountAddress: addr, Height: 3}, db,
		&ledger.AccountBlock{AccountAddress: types.Address{2}, ToAddress: addr, Amount: big.NewInt(9)}, data, verifQuota)
	c.setCallCode(addr, code)
	return vm, c, db
}

// verifPush is the code that pushes a word of any length.
func verifPush(w ...byte) []byte { return append([]byte{byte(PUSH1) + byte(len(w)) - 1}, w...) }

func verifProg(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func verifOps(ops ...opCode) []byte {
	r := make([]byte, len(ops))
	for i, o := range ops {
		r[i] = byte(o)
	}
	return r
}

func verifSmall(name string, max byte) byte {
	b := sym.Byte(name)
	sym.Assume(b <= max)
	return b
}

// verifRef is a reference memory: all bytes zero at first, no end.
type verifRef [256]byte

func (m *verifRef) word(at int, w []byte) { copy(m[at:at+32], w) }

// VerifH_Memory stores a word and a byte and loads a word at arbitrary places.
func VerifH_Memory() {
	a := int(verifSmall("store at", byte(sym.Param("range", 34))))
	b := []int{0, 5, 31, 32, 63, 64, 100}[sym.Choose("store8 at", sym.Param("store8", 7))]
	l := []int{0, 1, 31, 32, 33, 70, 130}[sym.Choose("load at", sym.Param("load", 7))]
	w := make([]byte, 32)
	sym.Fill("word", w)
	v := make([]byte, 32)
	sym.Fill("byte", v)
	code := verifProg(verifPush(w...), verifPush(byte(a)), verifOps(MSTORE),
		verifPush(v...), verifPush(byte(b)), verifOps(MSTORE8),
		verifPush(byte(l)), verifOps(MLOAD, MSIZE),
		verifPush(200), verifOps(MSTORE), verifPush(232-32-32), verifOps(MSTORE),
		verifPush(64), verifPush(168), verifOps(RETURN))
	vm, c, _ := verifVM(0, false, code, nil)
	ret, err := c.run(vm)
	var m verifRef
	m.word(a, w)
	m[b] = v[31]
	top := a + 32
	if b+1 > top {
		top = b + 1
	}
	if l+32 > top {
		top = l + 32
	}
	top = (top + 31) / 32 * 32
	sym.Assert(err == nil && len(ret) == 64, "program-succeeds")
	sym.Assert(sym.EqBytes(ret[:32], m[l:l+32]), "load-sees-the-latest-store-of-each-byte")
	sym.Assert(ret[63] == byte(top) && ret[62] == byte(top>>8), "memory-size-is-the-touched-words")
	// memory is paid for by its size, however it came to be
	vm, c, _ = verifVM(sym.Choose("era", sym.Param("eras", 1)), false, append(code[:33+2+1+33+2+1+2+1:33+2+1+33+2+1+2+1], byte(STOP)), nil)
	_, err = c.run(vm)
	t, words := vm.gasTable, uint64(top/32)
	sym.Assert(err == nil && verifQuota-c.quotaLeft == 5*t.PushQuota+t.MstoreQuota+t.Mstore8Quota+t.MloadQuota+words*t.MemQuota+words*words/t.MemQuotaDivision, "memory-is-paid-by-size")
	sym.Reach("memory")
}

// verifRefPad is data[off:off+n] with zero bytes outside.
func verifRefPad(data []byte, off *big.Int, n int) []byte {
	r := make([]byte, n)
	if off.BitLen() > 30 {
		return r
	}
	o := int(off.Int64())
	for i := range r {
		if o+i < len(data) {
			r[i] = data[o+i]
		}
	}
	return r
}

// VerifH_Copy copies call data, code and call data words with arbitrary source offsets.
func VerifH_Copy() {
	data := sym.Bytes("data", 40)[:[]int{0, 1, 33, 40}[sym.Choose("data length", 4)]]
	off := []byte{verifSmall("offset", 41)}
	if sym.Choose("offset kind", 2) == 1 {
		off = make([]byte, 32)
		sym.Fill("huge offset", off)
		sym.Assume(sym.Or(off[0] != 0, off[23] != 0, off[24] != 0, off[26] != 0))
	}
	o := new(big.Int).SetBytes(off)
	n := []int{0, 1, 32, 35}[sym.Choose("length", 4)]
	at := []int{0, 3, 40}[sym.Choose("target", 3)]
	var want []byte
	var code []byte
	tail := verifProg(verifPush(96), verifPush(0), verifOps(RETURN))
	pre := verifProg(verifPush(0xee), verifPush(10), verifOps(MSTORE))
	var ref verifRef
	ref[41] = 0xee
	switch sym.Choose("instruction", 3) {
	case 0:
		code = verifProg(pre, verifPush(byte(n)), verifPush(off...), verifPush(byte(at)), verifOps(CALLDATACOPY), tail)
		want = verifRefPad(data, o, n)
	case 1:
		code = verifProg(pre, verifPush(byte(n)), verifPush(off...), verifPush(byte(at)), verifOps(CODECOPY), tail)
		want = verifRefPad(code, o, n)
	case 2:
		code = verifProg(pre, verifPush(off...), verifOps(CALLDATALOAD), verifPush(byte(at)), verifOps(MSTORE), tail)
		want = verifRefPad(data, o, 32)
	}
	vm, c, _ := verifVM(0, false, code, data)
	ret, err := c.run(vm)
	copy(ref[at:], want)
	sym.Assert(err == nil && len(ret) == 96, "program-succeeds")
	sym.Assert(sym.EqBytes(ret, ref[:96]), "copies-data-padded-with-zeroes-and-nothing-else")
	sym.Reach("copy")
}

// VerifH_Push pushes n bytes, of which the code may hold fewer.
func VerifH_Push() {
	n := 1 + sym.Choose("push size", 32)
	have := sym.Choose("missing", 3)
	if have > n {
		sym.Stop()
	}
	have = n - have
	imm := sym.Bytes("immediate", 32)[:have]
	era := sym.Choose("era", 2)
	vm, c, _ := verifVM(era, false, verifProg([]byte{byte(PUSH1) + byte(n-1)}, imm), nil)
	c.intPool = util.PoolOfIntPools.Get()
	st, mem := newStack(), newMemory()
	pc := uint64(0)
	o := vm.i.instructionSet[byte(PUSH1)+byte(n-1)]
	_, err := o.execute(&pc, vm, c, mem, st)
	sym.Assert(err == nil && st.len() == 1 && pc == uint64(n), "pushes-one-word-and-skips-the-immediate")
	full := make([]byte, n)
	copy(full, imm)
	sym.Assert(st.peek().Cmp(new(big.Int).SetBytes(full)) == 0, "missing-immediate-bytes-are-zero")
	sym.Reach("push")
}

// VerifH_DupSwap checks the stack shuffles for every depth.
func VerifH_DupSwap() {
	n := 1 + sym.Choose("n", 16)
	swap := sym.Choose("kind", 2) == 1
	depth := sym.Choose("depth", 19)
	vm, c, _ := verifVM(0, false, nil, nil)
	c.intPool = util.PoolOfIntPools.Get()
	st, mem := newStack(), newMemory()
	var ref []*big.Int
	for i := 0; i < depth; i++ {
		x := sym.BigInt("word", 256)
		ref = append(ref, new(big.Int).Set(x))
		st.push(x)
	}
	op := DUP1 + opCode(n-1)
	need := n
	if swap {
		op = SWAP1 + opCode(n-1)
		need = n + 1
	}
	o := vm.i.instructionSet[op]
	err := o.validateStack(st)
	sym.Assert((err == nil) == (depth >= need), "rejects-a-stack-that-is-too-short")
	if err != nil {
		return
	}
	pc := uint64(0)
	_, err = o.execute(&pc, vm, c, mem, st)
	if swap {
		ref[depth-1], ref[depth-1-n] = ref[depth-1-n], ref[depth-1]
	} else {
		ref = append(ref, ref[depth-n])
	}
	sym.Assert(err == nil && pc == 0 && st.len() == len(ref), "stack-size")
	if !swap {
		// the copy is independent of the original
		st.peek().Add(st.peek(), big.NewInt(1))
		ref[depth] = new(big.Int).Add(ref[depth], big.NewInt(1))
	}
	ok := true
	for i := range ref {
		ok = sym.And(ok, st.data[i].Cmp(ref[i]) == 0)
	}
	sym.Assert(ok, "moves-exactly-the-named-words")
	sym.Reach("dupswap")
}

// verifIsDest: position d of code is a JUMPDEST that is not part of a push.
func verifIsDest(code []byte, d int) bool {
	if d >= len(code) || code[d] != byte(JUMPDEST) {
		return false
	}
	i := 0
	for i < d {
		if code[i] >= byte(PUSH1) && code[i] <= byte(PUSH32) {
			i += int(code[i]-byte(PUSH1)) + 1
		}
		i++
	}
	return i == d
}

func verifJump(code []byte, d []byte, cond []byte) {
	vm, c, _ := verifVM(sym.Choose("era", sym.Param("eras", 1)), false, code, nil)
	c.intPool = util.PoolOfIntPools.Get()
	st, mem := newStack(), newMemory()
	op, pc := JUMP, uint64(1)
	if cond != nil {
		st.push(new(big.Int).SetBytes(cond))
		op = JUMPI
	}
	dest := new(big.Int).SetBytes(d)
	in := dest.BitLen() <= 30
	di := 0
	if in {
		di = int(dest.Int64())
	}
	st.push(dest)
	_, err := vm.i.instructionSet[op].execute(&pc, vm, c, mem, st)
	if cond != nil && new(big.Int).SetBytes(cond).Sign() == 0 {
		sym.Assert(err == nil && pc == 2 && st.len() == 0, "untaken-branch-falls-through")
		return
	}
	ok := in && verifIsDest(code, di)
	sym.Assert((err == nil) == ok, "jumps-only-to-real-jump-destinations")
	if err == nil {
		sym.Assert(pc == uint64(di) && st.len() == 0, "jump-target")
	}
	sym.Reach("jump")
}

// VerifH_Jump jumps anywhere in arbitrary code.
func VerifH_Jump() {
	code := sym.Bytes("code", sym.Param("code", 4))
	verifJump(code, []byte{verifSmall("dest", byte(len(code)))}, nil)
}

// VerifH_JumpLong: code with one push of any size at any alignment; every other byte looks like a destination.
func VerifH_JumpLong() {
	code := make([]byte, 48)
	for i := range code {
		code[i] = byte(JUMPDEST)
	}
	code[sym.Choose("push at", sym.Param("at", 10))] = byte(PUSH1) + byte(sym.Choose("push size", 32))
	verifJump(code, []byte{verifSmall("dest", 48)}, nil)
}

// VerifH_JumpKinds: conditional jumps and huge destinations.
func VerifH_JumpKinds() {
	code := verifOps(JUMPDEST, PUSH1, JUMPDEST, JUMPDEST)
	d := make([]byte, 32)
	sym.Fill("dest", d)
	if sym.Choose("conditional", 2) == 1 {
		cond := make([]byte, 32)
		sym.Fill("condition", cond)
		verifJump(code, d, cond)
		return
	}
	verifJump(code, d, nil)
}

// VerifH_StatusCode: code that can read the snapshot chain is recognised wherever it is executable.
func VerifH_StatusCode() {
	code := sym.Bytes("code", sym.Param("code", 3))
	want := false
	wantSeed := false
	for i := 0; i < len(code); i++ {
		switch opCode(code[i]) {
		case HEIGHT, TIMESTAMP, DELEGATECALL, EXTCODESIZE, EXTCODECOPY:
			want = true
		case SEED, RANDOM:
			wantSeed = true
		}
		if code[i] >= byte(PUSH1) && code[i] <= byte(PUSH32) {
			i += int(code[i]-byte(PUSH1)) + 1
		}
	}
	r, rs := ContainsCertainStatusCode(code)
	sym.Assert(r == want && rs == wantSeed, "recognises-state-reading-code")
	sym.Reach("status")
}

var verifMeta = []byte{0xfe, 0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20}

func verifReads(op byte) (bool, bool) {
	switch opCode(op) {
	case HEIGHT, TIMESTAMP, DELEGATECALL, EXTCODESIZE, EXTCODECOPY:
		return true, false
	case SEED, RANDOM:
		return false, true
	}
	return false, false
}

// VerifH_StatusMetadata: what looks like compiler metadata inside pushed data hides nothing; real metadata ends the code.
func VerifH_StatusMetadata() {
	var code []byte
	want, wantSeed, over := false, false, false
	end := 0
	if sym.Choose("lead", 2) == 1 {
		code = append(append(code, byte(PUSH10)), verifMeta...)
	}
	for i := 0; i < sym.Param("parts", 4); i++ {
		switch sym.Choose("part", 6) {
		case 0:
			code = append(append(code, byte(PUSH10)), verifMeta...)
		case 1:
			code = append(append(code, byte(PUSH13), 1, 2, 3), verifMeta...)
		case 2:
			code = append(code, bytes.Repeat([]byte{byte(JUMPDEST)}, 11)...)
		case 3:
			op := sym.Byte("instruction")
			sym.Assume(op < byte(PUSH1) || op > byte(PUSH32))
			code = append(code, op)
			if !over {
				r, rs := verifReads(op)
				want, wantSeed = want || r, wantSeed || rs
			}
		case 4:
			if !over {
				over, end = true, len(code)
			}
			code = append(append(append(code, verifMeta...), make([]byte, 32)...), 0, 0x29)
		case 5:
			// the metadata's first bytes are data, the rest is code
			code = append(append(code, byte(PUSH3)), verifMeta...)
			code = append(code, make([]byte, 3)...)
		}
	}
	code = append(code, make([]byte, sym.Choose("tail", 2)*40)...)
	r, rs := ContainsCertainStatusCode(code)
	sym.Assert(sym.Implies(want, r), "recognises-code-before-metadata")
	sym.Assert(sym.Implies(wantSeed, rs), "recognises-random-code-before-metadata")
	if !over || end+44 > len(code) {
		sym.Assert(r == want && rs == wantSeed, "recognises-exactly-state-reading-code")
	}
	sym.Reach("metadata")
}

// VerifH_StatusBehind: code that jumps over what looks like metadata and reads the snapshot chain behind it.
func VerifH_StatusBehind() {
	hash := sym.Byte("metadata")
	code := append(verifPush(47), byte(JUMP))
	code = append(append(append(code, verifMeta...), bytes.Repeat([]byte{hash}, 32)...), 0, 0x29)
	code = append(code, byte(JUMPDEST), byte(TIMESTAMP), byte(STOP))
	vm, c, _ := verifVM(0, false, code, nil)
	status := &verifStatus{}
	vm.globalStatus = status
	c.intPool = util.PoolOfIntPools.Get()
	_, err := vm.i.runLoop(vm, c)
	r, _ := ContainsCertainStatusCode(code)
	sym.Assert(err != nil || !status.read || r, "recognises-code-behind-metadata")
	sym.Reach("behind metadata")
}

// verifHuge is a stack word that fits no 64-bit integer or is near the end of that range.
func verifHuge(op opCode) []byte {
	switch sym.Choose("huge", 3) {
	case 0:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xf0}
	case 1:
		b := make([]byte, 32)
		for i := range b {
			b[i] = 0xff
		}
		return b
	}
	b := make([]byte, 32)
	if op > SAR && op != SLOAD && op != SSTORE {
		b[0] = 1
		sym.Fill("huge", b[1:])
	} else {
		b[22] = 1
	}
	return b
}

// verifWord is a stack word of full length, of one byte, or zero.
func verifWord(name string, n int) []byte {
	b := make([]byte, n)
	switch sym.Choose(name, 3) {
	case 0:
		sym.Fill(name, b)
		sym.Assume(b[0] != 0)
	case 1:
		b[n-1] = sym.Byte(name)
		sym.Assume(b[n-1] != 0)
	}
	return b
}

// VerifH_Step executes any one instruction after any pushes, with and without memory in use.
func VerifH_Step() {
	op := opCode(sym.Param("lo", 0) + sym.Choose("instruction", sym.Param("n", 256)))
	offchain := sym.Choose("offchain", sym.Param("offchain", 1)) == 1
	era := sym.Choose("era", sym.Param("eras", 1))
	vm, c, _ := verifVM(era, offchain, nil, sym.Bytes("data", 3))
	o := vm.i.instructionSet[op]
	pops := 0
	if o.valid {
		st := newStack()
		for pops = 0; o.validateStack(st) != nil; pops++ {
			st.push(new(big.Int))
		}
	}
	var code []byte
	if sym.Choose("memory in use", 2) == 1 {
		code = verifProg(verifPush(7), verifPush(1), verifOps(MSTORE))
	}
	interesting := pops
	if op >= DUP1 && op <= SWAP16 || op >= LOG0 && op <= LOG4 {
		interesting = 2
	}
	huge := sym.Choose("huge operand", interesting+1)
	short := 0
	if pops > 0 {
		short = sym.Choose("one operand missing", 2)
	}
	for i := pops - 1; i >= short; i-- {
		if i+1 == huge {
			code = verifProg(code, verifPush(verifHuge(op)...))
		} else if i < interesting && op != SSTORE && op != SLOAD {
			if o.memorySize == nil && op >= LT || op == CALL && i < 3 || op == CALL2 && i < 3 {
				code = verifProg(code, verifPush(verifSmall("operand", 66)))
			} else {
				code = verifProg(code, verifPush([]byte{0, 33, 1}[sym.Choose("operand", sym.Param("small", 2))]))
			}
		} else {
			code = verifProg(code, verifPush(byte(i)))
		}
	}
	start := len(code)
	code = verifProg(code, []byte{byte(op)}, verifOps(STOP))
	c.code = code
	_, err := c.run(vm)
	if !o.valid || short == 1 {
		sym.Assert(err != nil, "rejects-undefined-instructions-and-short-stacks")
	}
	sym.Assert(c.quotaLeft <= verifQuota, "quota-never-exceeds-what-was-granted")
	// the same program without the instruction: the instruction costs something unless it ends the run
	vm2, c2, _ := verifVM(era, offchain, append(append([]byte{}, code[:start]...), byte(STOP)), nil)
	if _, err2 := c2.run(vm2); err == nil && err2 == nil && !o.halts && !o.reverts {
		sym.Assert(c.quotaLeft < c2.quotaLeft, "every-continuing-instruction-costs-quota")
	}
	sym.Reach("step")
}

// VerifH_Storage: what SSTORE wrote is what SLOAD reads, and no sequence of stores earns quota.
func VerifH_Storage() {
	k := make([]byte, 32)
	era := sym.Choose("era", 2)
	if era == 1 {
		sym.Fill("key", k)
	} else {
		k[sym.Choose("key", 2)*31] = 0x80
	}
	k2 := make([]byte, 32)
	copy(k2, k)
	k2[31] ^= 1
	vals := make([][]byte, 3)
	var code []byte
	n := 1 + sym.Choose("stores", 3)
	for i := 0; i < n; i++ {
		vals[i] = []byte{0}
		vals[i][0] = verifSmall("value", 2)
		code = verifProg(code, verifPush(vals[i]...), verifPush(k...), verifOps(SSTORE))
	}
	code = verifProg(code, verifPush(k2...), verifOps(SLOAD), verifPush(32), verifOps(MSTORE))
	code = verifProg(code, verifPush(k...), verifOps(SLOAD), verifPush(0), verifOps(MSTORE), verifPush(64), verifPush(0), verifOps(RETURN))
	vm, c, db := verifVM(era, false, code, nil)
	orig := verifSmall("original", 2)
	db.keys, db.vals, db.orig = [][]byte{k}, [][]byte{new(big.Int).SetBytes([]byte{orig}).Bytes()}, [][]byte{new(big.Int).SetBytes([]byte{orig}).Bytes()}
	ret, err := c.run(vm)
	sym.Assert(err == nil && len(ret) == 64, "program-succeeds")
	want := make([]byte, 64)
	want[31] = vals[n-1][0]
	sym.Assert(sym.EqBytes(ret, want), "load-returns-the-latest-store-of-that-key-only")
	// pushes and loads alone
	var base []byte
	for i := 0; i < n; i++ {
		base = verifProg(base, verifPush(vals[i]...), verifPush(k...), verifOps(POP, POP))
	}
	base = verifProg(base, code[len(code)-2*(33+1)-2*3-5:])
	vm2, c2, _ := verifVM(era, false, base, nil)
	_, err = c2.run(vm2)
	sym.Assert(err == nil, "program-succeeds")
	sym.Assert(c.quotaLeft <= c2.quotaLeft+uint64(2*n)*vm2.gasTable.PopQuota, "stores-never-earn-quota")
	sym.Reach("storage")
}

// VerifH_Log: a log carries its topics in order and the named range of memory.
func VerifH_Log() {
	n := sym.Choose("topics", 5)
	var code []byte
	w := verifWord("word", 32)
	code = verifProg(verifPush(w...), verifPush(0), verifOps(MSTORE))
	topics := make([][]byte, n)
	for i := n - 1; i >= 0; i-- {
		topics[i] = make([]byte, 32)
		sym.Fill("topic", topics[i])
		if i == 0 && sym.Choose("short topic", 2) == 1 {
			topics[i] = make([]byte, 32)
			topics[i][31] = 5
		} else {
			sym.Assume(topics[i][0] != 0)
		}
		code = verifProg(code, verifPush(topics[i]...))
	}
	off := verifSmall("offset", 40)
	size := []int{0, 1, 32, 40}[sym.Choose("size", 4)]
	code = verifProg(code, verifPush(byte(size)), verifPush(off), []byte{byte(LOG0) + byte(n)}, verifPush(0xff, 0xff), verifPush(0), verifOps(MSTORE, STOP))
	vm, c, db := verifVM(sym.Choose("era", 2), false, code, nil)
	_, err := c.run(vm)
	sym.Assert(err == nil && len(db.logs) == 1, "one-log-is-emitted")
	var m verifRef
	m.word(0, w)
	sym.Assert(len(db.logs[0].Topics) == n && sym.EqBytes(db.logs[0].Data, m[off:int(off)+size]), "log-data-is-the-memory-range")
	for i := range topics {
		sym.Assert(sym.EqBytes(db.logs[0].Topics[i][:], topics[i]), "topics-in-order")
	}
	sym.Reach("log")
}

// VerifH_Call: CALL and CALL2 issue one request with the given target, token, amount and memory range.
func VerifH_Call() {
	w := make([]byte, 32)
	sym.Fill("word", w)
	sym.Assume(w[0] != 0)
	to, tok, amount := sym.Bytes("to", 21), sym.Bytes("token", 10), verifWord("amount", 32)
	sym.Assume(to[20] <= 1)
	switch sym.Choose("token", 2) {
	case 0:
		sym.Assume(tok[0] != 0)
	case 1:
		tok = make([]byte, 10)
		tok[9] = 1
	}
	for i := 0; i < 19; i++ {
		to[i] |= 1 // not a built-in contract
	}
	off := verifSmall("offset", 40)
	size := []int{0, 1, 32, 40, 100}[sym.Choose("size", 5)]
	op := []opCode{CALL, CALL2}[sym.Choose("instruction", 2)]
	var code []byte
	if sym.Choose("memory in use", 2) == 1 {
		code = verifProg(verifPush(w...), verifPush(0), verifOps(MSTORE))
	} else {
		w = make([]byte, 32)
	}
	code = verifProg(code, verifPush(byte(size)), verifPush(off), verifPush(amount...), verifPush(tok...), verifPush(to...),
		verifOps(op), verifPush(9), verifPush(0), verifOps(MSTORE))
	if op == CALL2 {
		code = append(code, verifProg(verifPush(0), verifOps(MSTORE), verifPush(32), verifPush(0), verifOps(RETURN))...)
	}
	vm, c, _ := verifVM(0, false, append(code, byte(STOP)), nil)
	ret, err := c.run(vm)
	sym.Assert(err == nil && len(vm.sendBlockList) == 1, "one-request-is-issued")
	b := vm.sendBlockList[0]
	var m verifRef
	m.word(0, w)
	sym.Assert(sym.And(sym.EqBytes(b.ToAddress[:], to), sym.EqBytes(b.TokenId[:], tok), b.Amount.Cmp(new(big.Int).SetBytes(amount)) == 0), "request-target-token-and-amount")
	sym.Assert(b.AccountAddress == c.block.AccountAddress && b.BlockType == ledger.BlockTypeSendCall && b.Fee.Sign() == 0, "request-comes-from-the-contract")
	sym.Assert(sym.EqBytes(b.Data, m[off:int(off)+size]), "request-data-is-the-memory-range")
	if op == CALL2 {
		h := b.ComputeSendHash(c.block, 0)
		sym.Assert(sym.EqBytes(ret, h[:]), "call2-returns-the-hash-of-the-request")
	}
	sym.Reach("call")
}
