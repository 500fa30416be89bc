package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opnd struct {
	r int32
	c Val
}

func (o *opnd) get(fr *Frame) Val {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

type ctl int

const (
	cNext   ctl = iota // advance pc
	cStay              // pc already set / frame stack changed
	cReturn            // frame popped
	cYield             // goroutine blocked; re-execute instruction later
)

type instrFn func(m *M, fr *Frame) ctl

type move struct {
	dst int32
	src opnd
}

type CFn struct {
	fn     *ssa.Function
	name   string
	nregs  int32
	code   []instrFn
	ins    []ssa.Instruction
	starts []int
	edges  [][2][]move // per block: phi moves for succ 0/1
	params []int32
	free   []int32
	regOf  map[ssa.Value]int32
	recov  int // start pc of recover block or -1
	spec   map[*ssa.BasicBlock]*specRegion
	calls  int64
}

type deferRec struct {
	next  *deferRec
	fn    Val
	inv   *types.Func // invoke method
	args  []Val
	bi    *ssa.Builtin
	args2 []ssa.Value
}

type panicRec struct {
	val       Val
	recovered bool
	msg       string
	where     string
}

const (
	fkCall = iota
	fkDefer
	fkRoot
	fkCont
)

type Frame struct {
	f         *CFn
	regs      []Val
	pc        int
	defers    *deferRec
	dst       int32
	kind      uint8
	shared    bool
	panicking *panicRec // set while running this frame's defers because of a panic
	cont      func(m *M, fr *Frame, v Val) ctl
}

type Gor struct {
	retv    Val
	id      int
	frames  []*Frame
	done    bool
	wake    func(m *M) bool // nil = runnable
	resumed bool
}

type trailEnt struct {
	p   *Val
	old Val
	f   func()
}

type goPanic struct{ v Val }

type pathEnd struct{ kind string }

type Choice struct {
	gs       []*Gor
	cur      int
	trail    int
	pc       int
	nObs     int
	reach    int
	decPos   int // decisions consumed at instruction start
	k        int // index in decs of the flipped decision
	alts     []int32
	model    *Model
	noModel  bool
	steps    int64
	vars     int
	nextGor  int
	sideLens [4]int
}

type Obs struct {
	Name string
	V    Val
	T    types.Type
}

type Violation struct {
	Harness   string            `json:"harness"`
	Kind      string            `json:"kind"`
	Msg       string            `json:"msg"`
	Where     string            `json:"where"`
	Values    map[string]string `json:"values"`
	Trace     []string          `json:"trace,omitempty"`
	Sched     bool              `json:"sched,omitempty"`
	HashUnref bool              `json:"hash_unrefined,omitempty"`
}

type M struct {
	P       *Prog
	tb      *TB
	sess    *Session
	tiCache map[types.Type]*TI
	typeIDs map[types.Type]int
	typeMap typeutil.Map
	globals map[*ssa.Global]*Val
	initSt  map[*ssa.Package]int
	funcs   map[*ssa.Function]*CFn
	intr    map[string]intrinsic
	intrC   map[*ssa.Function]intrinsic
	redir   map[*ssa.Function]*ssa.Function
	methC   map[methKey]*ssa.Function

	gs      []*Gor
	cur     int
	nextGor int
	trail   []trailEnt
	noTrail int
	inInit  int
	lenient bool

	pc        []*Term
	pcSet     map[*Term]bool
	bnd       map[*Term]urng
	bndLog    []bndUndo
	linMemo   map[linKey]*linForm
	decs      []int32
	decPos    int
	model     *Model
	pendM     *Model
	vars      []symVar
	names     map[string]int
	obs       []Obs
	reach     []string
	maybe     bool
	specDepth int
	noSpec    bool

	choices  []*Choice
	iTrail   int
	iPC      int
	iDec     int
	iObs     int
	iReach   int
	iVars    int
	steps    int64
	maxStep  int64
	tsteps   int64
	forks    int64
	stepBase int64
	preempt  bool
	switchTo int

	job      *Job
	H        *Harness
	E        *Explorer
	hashes   map[string][]*hashEnt
	nHashes  int
	hashLog  []string
	side     map[string]any
	opaque   []opaqueEnt
	lastPos  ssa.Instruction
	errAt    string
	trace    bool
	maporder bool
	ordered  bool // map orders were explored: a native replay may need several tries
	seenFns  map[*ssa.Function]bool
}

type symVar struct {
	name string // replay key
	t    *Term
	kind string
}

func NewM(p *Prog) *M {
	m := &M{P: p, tb: NewTB(), tiCache: map[types.Type]*TI{}, typeIDs: map[types.Type]int{},
		globals: map[*ssa.Global]*Val{}, initSt: map[*ssa.Package]int{}, funcs: map[*ssa.Function]*CFn{},
		intrC: map[*ssa.Function]intrinsic{}, redir: map[*ssa.Function]*ssa.Function{}, methC: map[methKey]*ssa.Function{},
		pcSet: map[*Term]bool{}, bnd: map[*Term]urng{}, linMemo: map[linKey]*linForm{}, names: map[string]int{}, hashes: map[string][]*hashEnt{}, side: map[string]any{}, seenFns: map[*ssa.Function]bool{}}
	m.intr = intrinsics
	m.sess = NewSession(m.tb)
	m.maxStep = 30_000_000
	return m
}

func (m *M) undo(f func()) {
	if m.noTrail == 0 {
		m.trail = append(m.trail, trailEnt{f: f})
	}
}

func (m *M) set(p *Val, v Val) {
	if m.noTrail == 0 {
		m.trail = append(m.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

// assign stores v into cell p, keeping the identity of by-value aggregates.
func (m *M) assign(p *Val, v Val) {
	if a, ok := v.p.(*Agg); ok {
		if d, ok := p.p.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				x := a.e[i]
				if _, ok := x.p.(*Agg); ok {
					m.assign(&d.e[i], x)
				} else {
					m.set(&d.e[i], x)
				}
			}
			return
		}
		m.set(p, copyVal(v))
		return
	}
	m.set(p, v)
}

func (m *M) rollback(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		t := &m.trail[i]
		if t.f != nil {
			t.f()
		} else {
			*t.p = t.old
		}
		*t = trailEnt{}
	}
	m.trail = m.trail[:mark]
}

func (m *M) truncPC(n int) {
	for i := n; i < len(m.pc); i++ {
		delete(m.pcSet, m.pc[i])
	}
	m.pc = m.pc[:n]
	m.unlearn(n)
}

func (m *M) addPC(t *Term) {
	if t == m.tb.True {
		return
	}
	if t.op == OpBAnd {
		m.addPC(t.a[0])
		m.addPC(t.a[1])
		return
	}
	if m.pcSet[t] {
		return
	}
	m.pcSet[t] = true
	m.learn(t)
	m.pc = append(m.pc, t)
}

// ensureModel gets a model of the current pc.
func (m *M) ensureModel() bool {
	if m.model != nil {
		return true
	}
	r, mod := m.sess.Check(m.pc, nil, true)
	switch r {
	case Sat:
		m.model = mod
		return true
	case Unsat:
		panic(pathEnd{"infeasible"})
	}
	return false
}

func (m *M) cloneGs() []*Gor {
	out := make([]*Gor, len(m.gs))
	for i, g := range m.gs {
		c := *g
		c.frames = append([]*Frame{}, g.frames...)
		for k, f := range c.frames {
			if i == m.cur && k == len(c.frames)-1 && !f.shared {
				// the running frame stays private to the live state
				cp := *f
				cp.regs = append([]Val{}, f.regs...)
				cp.shared = true
				c.frames[k] = &cp
				continue
			}
			f.shared = true
		}
		out[i] = &c
	}
	return out
}

func (m *M) pushChoice(alts []int32, model *Model) {
	m.forks++
	c := &Choice{gs: m.cloneGs(), cur: m.cur, trail: m.iTrail, pc: m.iPC, nObs: m.iObs, reach: m.iReach, decPos: m.iDec,
		k: m.decPos, alts: alts, model: model, steps: m.steps, vars: m.iVars, nextGor: m.nextGor}
	m.choices = append(m.choices, c)
}

// decide resolves a boolean condition, forking when both outcomes are feasible.
func (m *M) decide(c *Term) bool {
	c = m.tb.canon(c)
	if c.isC() {
		return c.u != 0
	}
	if m.pcSet[c] {
		return true
	}
	nc := m.tb.Not(c)
	if m.pcSet[nc] {
		return false
	}
	if v := m.ival(c); v >= 0 {
		return v == 1
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	if m.inInit > 0 {
		unsupported("symbolic branch in package init")
	}
	if m.decPos < len(m.decs) {
		d := m.decs[m.decPos]
		if d != 0 && d != 1 {
			unsupported("replay mismatch")
		}
		m.decPos++
		if d != 0 {
			m.addPC(c)
		} else {
			m.addPC(nc)
		}
		if m.decPos == len(m.decs) {
			m.model = m.pendM
			m.pendM = nil
		} else {
			m.model = nil
		}
		return d != 0
	}
	m.E.checkStop()
	if m.model == nil && !m.ensureModel() {
		// unknown pc: explore both sides
		m.maybe = true
	}
	var mv bool
	if m.model != nil {
		mv = m.tb.Eval(c, m.model) == m.tb.True
	}
	other := c
	if mv {
		other = nc
	}
	r, mod := m.sess.Check(m.pc, other, false)
	if r == Unknown {
		m.E.noteUnknown()
	}
	if r != Unsat {
		alt := int32(1)
		if mv {
			alt = 0
		}
		m.pushChoice([]int32{alt}, mod)
	}
	d := int32(0)
	if mv {
		d = 1
	}
	m.decs = append(m.decs, d)
	m.decPos++
	if mv {
		m.addPC(c)
	} else {
		m.addPC(nc)
	}
	return mv
}

// choose explores all of 0..n-1 (unconstrained).
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	if m.decPos < len(m.decs) {
		d := m.decs[m.decPos]
		m.decPos++
		if m.decPos == len(m.decs) {
			m.model = m.pendM
			m.pendM = nil
		}
		return int(d)
	}
	alts := make([]int32, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		alts = append(alts, int32(i))
	}
	m.pushChoice(alts, m.model)
	m.decs = append(m.decs, 0)
	m.decPos++
	return 0
}

// concretize forks over the feasible values of t.
func (m *M) concretize(v Val, w int32, limit int, what string) uint64 {
	t := v.term()
	if t == nil {
		m.poisonCheck(v)
		return v.n
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	if t.w > 64 {
		unsupported("concretize wide term")
	}
	for i := 0; i < limit; i++ {
		var cand *Term
		if m.decPos < len(m.decs) {
			// replay: candidate values must be recomputed deterministically; record them in decs
			if m.decPos+1 >= len(m.decs) {
				unsupported("replay mismatch")
			}
			lo := uint64(uint32(m.decs[m.decPos]))
			hi := uint64(uint32(m.decs[m.decPos+1]))
			m.decPos += 2
			cand = m.tb.C(hi<<32|lo, t.w)
			if m.decPos == len(m.decs) {
				m.model = m.pendM
				m.pendM = nil
			}
		} else {
			if !m.ensureModel() {
				unsupported("no model while concretizing %s", what)
			}
			cand = m.tb.Eval(t, m.model)
			m.decs = append(m.decs, int32(uint32(cand.u)), int32(uint32(cand.u>>32)))
			m.decPos += 2
		}
		if m.decide(m.tb.Eq(t, cand)) {
			return cand.u
		}
	}
	m.E.bound(fmt.Sprintf("%s: more than %d values", what, limit))
	panic(pathEnd{"bound"})
}

func (m *M) top() *Frame {
	g := m.gs[m.cur]
	return g.frames[len(g.frames)-1]
}

func (m *M) pushFrame(f *CFn, args []Val, free []Val, dst int32, kind uint8) *Frame {
	fr := &Frame{f: f, regs: make([]Val, f.nregs), dst: dst, kind: kind}
	for i, r := range f.params {
		fr.regs[r] = args[i]
	}
	for i, r := range f.free {
		fr.regs[r] = free[i]
	}
	g := m.gs[m.cur]
	if len(g.frames) > 4000 {
		unsupported("call stack too deep")
	}
	g.frames = append(g.frames, fr)
	f.calls++
	return fr
}

// own returns a writable top frame.
func (m *M) own() *Frame {
	g := m.gs[m.cur]
	i := len(g.frames) - 1
	fr := g.frames[i]
	if fr.shared {
		c := *fr
		c.regs = append([]Val{}, fr.regs...)
		c.shared = false
		g.frames[i] = &c
		return &c
	}
	return fr
}

// ret pops the top frame delivering v to its caller.
func (m *M) ret(v Val) ctl {
	g := m.gs[m.cur]
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		g.retv = v
		return cReturn
	}
	c := m.own()
	switch fr.kind {
	case fkDefer:
		// deferred call finished; if a panic was recovered by it, finish the frame
		if c.panicking != nil && c.panicking.recovered {
			c.panicking = nil
			// run the remaining defers, then return through the recover block
			c.pc = -1
			return cReturn
		}
		return cReturn
	case fkCont:
		r := fr.cont(m, c, v)
		if r == cNext {
			c.pc++
		}
		return cReturn
	}
	if fr.dst >= 0 {
		c.regs[fr.dst] = v
	}
	c.pc++
	return cReturn
}

// startPanic begins unwinding the current goroutine.
func (m *M) startPanic(v Val, where string) {
	p := &panicRec{val: v, where: where}
	m.unwind(p)
}

func (m *M) unwind(p *panicRec) {
	g := m.gs[m.cur]
	for {
		if len(g.frames) == 0 {
			panic(uncaught{p})
		}
		fr := m.own()
		if fr.kind == fkDefer && fr.panicking == nil && len(g.frames) >= 2 {
			// a panic inside a deferred function replaces the caller's current panic once this frame is gone
		}
		if fr.defers != nil {
			fr.panicking = p
			m.runDefer(fr)
			return
		}
		// no more defers: pop
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 || fr.kind == fkRoot {
			panic(uncaught{p})
		}
	}
}

type uncaught struct{ p *panicRec }

// runDefer pops one defer of fr and starts it.
func (m *M) runDefer(fr *Frame) {
	d := fr.defers
	fr.defers = d.next
	if d.bi != nil {
		m.callBuiltin(d.bi, d.args, d.args2, fr)
		return
	}
	fn := d.fn
	args := d.args
	m.invoke(fr, fn, args, -1, fkDefer)
}

func (m *M) stackTrace() string {
	var sb strings.Builder
	g := m.gs[m.cur]
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-8; i-- {
		fr := g.frames[i]
		pos := ""
		if fr.pc >= 0 && fr.pc < len(fr.f.ins) && fr.f.ins[fr.pc] != nil {
			p := m.P.prog.Fset.Position(fr.f.ins[fr.pc].Pos())
			pos = fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
		}
		fmt.Fprintf(&sb, "%s(%s) < ", fr.f.name, pos)
	}
	return sb.String()
}

func shortPath(s string) string {
	s = strings.TrimPrefix(s, repoDir+"/")
	if i := strings.Index(s, "/pkg/mod/"); i >= 0 {
		s = s[i+9:]
	}
	return s
}

// loop runs until the current goroutine set finishes or an engine panic escapes.
func (m *M) loop(stop func() bool) {
	for {
		if stop() {
			return
		}
		m.loop1(stop)
	}
}

func (m *M) loop1(stop func() bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case goPanic:
			if m.inInit > 0 && m.lenient {
				m.initRecover("panic in init: " + m.panicText(x.v))
				return
			}
			w := m.stackTrace()
			m.startPanic(x.v, w)
		case engErr:
			if m.inInit > 0 && m.lenient {
				m.initRecover(x.msg)
				return
			}
			m.errAt = m.stackTrace()
			panic(r)
		case pathEnd, uncaught, stopErr:
			panic(r)
		default:
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			if m.inInit > 0 && m.lenient {
				m.initRecover(fmt.Sprint(r))
				return
			}
			fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\nat %s\n%s\n", r, m.stackTrace(), buf[:n])
			m.errAt = m.stackTrace()
			panic(engErr{fmt.Sprint("engine: ", r)})
		}
	}()
	for {
		g := m.gs[m.cur]
		if g.done || g.wake != nil {
			if stop() {
				return
			}
			if !m.schedule() {
				return
			}
			continue
		}
		fr := g.frames[len(g.frames)-1]
		if fr.shared {
			fr = m.own()
		}
		if fr.pc == -1 { // recovered: run remaining defers then recover block
			if fr.defers != nil {
				m.runDefer(fr)
				continue
			}
			if fr.f.recov >= 0 {
				fr.pc = fr.f.recov
			} else {
				m.ret(m.zeroResults(fr.f.fn))
				continue
			}
		}
		if fr.panicking != nil && !fr.panicking.recovered {
			// returned from a deferred call while panicking
			p := fr.panicking
			m.unwind(p)
			continue
		}
		m.iTrail = len(m.trail)
		m.iPC = len(m.pc)
		m.iDec = m.decPos
		m.iObs = len(m.obs)
		m.iReach = len(m.reach)
		m.iVars = len(m.vars)
		m.steps++
		if m.steps&0x3ffff == 0 && m.inInit == 0 {
			m.E.checkStop()
		}
		if m.steps > m.maxStep && m.inInit == 0 {
			m.E.bound("step budget exceeded")
			panic(pathEnd{"bound"})
		}
		pc := fr.pc
		if m.trace {
			fmt.Fprintf(os.Stderr, "%s@%d: %v\n", fr.f.name, pc, fr.f.ins[pc])
		}
		switch fr.f.code[pc](m, fr) {
		case cNext:
			fr.pc = pc + 1
		case cYield:
			if m.switchTo > 0 {
				m.cur = m.switchTo - 1
				m.switchTo = 0
			} else {
				m.schedule()
			}
		}
	}
}

func (m *M) zeroResults(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Val{}
	case 1:
		return m.zero(rs.At(0).Type())
	}
	return m.zero(rs)
}

// schedule picks another runnable goroutine; false when none is runnable.
func (m *M) schedule() bool {
	n := len(m.gs)
	for i := 1; i <= n; i++ {
		j := (m.cur + i) % n
		g := m.gs[j]
		if g.done {
			continue
		}
		if g.wake != nil {
			if !g.wake(m) {
				continue
			}
			g.wake = nil
		}
		m.cur = j
		return true
	}
	// all blocked
	if m.gs[0].done {
		return false
	}
	panic(pathEnd{"deadlock"})
}

func (m *M) block(wake func(m *M) bool) ctl {
	m.gs[m.cur].wake = wake
	return cYield
}

// ---- package init ----
func (m *M) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.initSt[pkg] != 0 {
		return
	}
	m.initSt[pkg] = 1
	if m.P.skipInit(pkg.Pkg.Path()) {
		m.initSt[pkg] = 2
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	t0 := time.Now()
	m.runNested(f)
	m.initSt[pkg] = 2
	if d := time.Since(t0); d > 500*time.Millisecond && verbose {
		fmt.Fprintf(os.Stderr, "init %s took %v\n", pkg.Pkg.Path(), d)
	}
}

func (m *M) runNested(f *ssa.Function) {
	sg, sc, st := m.gs, m.cur, m.steps
	slen := m.lenient
	iT, iP, iD, iO, iR, iV := m.iTrail, m.iPC, m.iDec, m.iObs, m.iReach, m.iVars
	m.noTrail++
	m.inInit++
	m.lenient = true
	g := &Gor{}
	m.gs = []*Gor{g}
	m.cur = 0
	m.pushFrame(m.compile(f), nil, nil, -1, fkRoot)
	m.loop(func() bool { return g.done })
	m.inInit--
	m.noTrail--
	m.lenient = slen
	m.gs, m.cur, m.steps = sg, sc, st
	m.iTrail, m.iPC, m.iDec, m.iObs, m.iReach, m.iVars = iT, iP, iD, iO, iR, iV
}

// initRecover: an unmodelled call inside package init yields a poison value and init goes on.
func (m *M) initRecover(why string) {
	g := m.gs[m.cur]
	if os.Getenv("VERIF_INITDBG") != "" {
		fmt.Fprintf(os.Stderr, "init: %s at %s\n", why, m.stackTrace())
	}
	// find the outermost init frames
	k := 0
	for i, f := range g.frames {
		if strings.HasPrefix(f.f.fn.Name(), "init") && f.f.fn.Parent() == nil && f.f.fn.Signature.Recv() == nil && f.f.fn.Signature.Params().Len() == 0 {
			k = i
		} else {
			break
		}
	}
	g.frames = g.frames[:k+1]
	fr := m.own()
	fr.panicking = nil
	if fr.pc < 0 || fr.pc >= len(fr.f.ins) {
		g.done = true
		return
	}
	ins := fr.f.ins[fr.pc]
	if v, ok := ins.(ssa.Value); ok {
		if r, ok := fr.f.regOf[v]; ok {
			p := &Poison{why}
			if tp, ok := v.Type().(*types.Tuple); ok {
				e := make([]Val, tp.Len())
				for i := range e {
					e[i] = Val{p: p}
				}
				fr.regs[r] = Val{p: &Agg{e}}
			} else {
				fr.regs[r] = Val{p: p}
			}
		}
	}
	switch ins.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		// give up on this init function
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			g.done = true
			return
		}
		fr = m.own()
	}
	fr.pc++
}

func (m *M) globalCell(g *ssa.Global) *Val {
	if c, ok := m.globals[g]; ok {
		return c
	}
	c := new(Val)
	*c = m.zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = c
	return c
}

func (m *M) panicText(v Val) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	if v.p == nil {
		return "nil"
	}
	f, ok := v.p.(*Iface)
	if !ok {
		return fmt.Sprintf("%T", v.p)
	}
	switch x := f.v.p.(type) {
	case *Str:
		if x.poi != "" {
			return "<" + x.poi + ">"
		}
		if x.sym == nil {
			return x.c
		}
		return "<symbolic string>"
	case *Val:
		if a, ok := x.p.(*Agg); ok && len(a.e) > 0 {
			if s, ok := a.e[0].p.(*Str); ok && s.sym == nil {
				return f.t.String() + ": " + s.c + s.poi
			}
		}
	case nil:
		return fmt.Sprintf("%s(%d)", f.t, f.v.n)
	}
	return f.t.String()
}
