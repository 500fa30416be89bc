package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct{ decs []int32 }

type stopErr struct{}

type Harness struct {
	cfg    *HarnessCfg
	fn     *ssa.Function
	params map[string]int
}

type Sample struct {
	Harness string            `json:"harness"`
	Values  map[string]string `json:"values"`
	Obs     []string          `json:"obs"`
	Reach   []string          `json:"reach"`
	End     string            `json:"end"`
	Hash    bool              `json:"hash,omitempty"`
}

type Explorer struct {
	P        *Prog
	H        *Harness
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	idle     int
	nworkers int
	closed   bool
	stopped  atomic.Bool
	idleA    atomic.Int32
	deadline time.Time
	timeout  bool

	paths, infeasible int64
	steps, forks      int64
	asserts           int64
	assertQ           int64
	unknowns          int64
	unkAsserts        []string
	bounds            map[string]int64
	errs              map[string]int64
	viol              []*Violation
	violKeys          map[string]int
	reach             map[string]int64
	ends              map[string]int64
	stats             SolverStats
	fns               map[string]int64
	samples           []*Sample
	nsamp             int64
	rng               *rand.Rand
	maxSamples        int
	wall              time.Duration
	rejected          int64
}

func NewExplorer(P *Prog, H *Harness, budget time.Duration, seed int64) *Explorer {
	e := &Explorer{P: P, H: H, bounds: map[string]int64{}, errs: map[string]int64{}, violKeys: map[string]int{}, reach: map[string]int64{}, ends: map[string]int64{}, fns: map[string]int64{}, rng: rand.New(rand.NewSource(seed)), maxSamples: 12}
	e.cond = sync.NewCond(&e.mu)
	e.deadline = time.Now().Add(budget)
	return e
}

func (e *Explorer) checkStop() {
	if e.stopped.Load() {
		panic(stopErr{})
	}
	if time.Now().After(e.deadline) {
		e.mu.Lock()
		e.timeout = true
		e.mu.Unlock()
		e.stopped.Store(true)
		panic(stopErr{})
	}
}

func (e *Explorer) noteUnknown() { atomic.AddInt64(&e.unknowns, 1) }

func (e *Explorer) bound(what string) {
	e.mu.Lock()
	e.bounds[what]++
	e.mu.Unlock()
}

func (e *Explorer) Run(workers int) {
	t0 := time.Now()
	e.jobs = []*Job{{}}
	e.nworkers = workers
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
	e.wall = time.Since(t0)
}

func (e *Explorer) take() *Job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped.Load() {
			e.closed = true
			e.cond.Broadcast()
			return nil
		}
		if len(e.jobs) > 0 {
			j := e.jobs[0]
			e.jobs = e.jobs[1:]
			return j
		}
		e.idle++
		e.idleA.Store(int32(e.idle))
		if e.idle == e.nworkers || e.closed {
			e.closed = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
		e.idle--
		e.idleA.Store(int32(e.idle))
	}
}

func (e *Explorer) worker(i int) {
	var m *M
	for {
		j := e.take()
		if j == nil {
			break
		}
		if m == nil {
			m = NewM(e.P)
			m.E = e
			m.H = e.H
			m.maporder = e.H.cfg.MapOrder
			m.preempt = e.H.cfg.Preempt
			m.noSpec = e.H.cfg.NoSpec
			if e.H.cfg.MaxStep > 0 {
				m.maxStep = e.H.cfg.MaxStep
			}
			if e.H.cfg.SolverMs > 0 {
				m.sess.slowTmo = time.Duration(e.H.cfg.SolverMs) * time.Millisecond
			}
		}
		m.runJob(j)
		e.mu.Lock()
		if e.stopped.Load() {
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
	if m != nil {
		e.mu.Lock()
		e.stats.add(&m.sess.stats)
		e.steps += m.tsteps
		e.forks += m.forks
		for f, c := range m.funcs {
			if c.calls > 0 && f.Pkg != nil {
				e.fns[shortFn(f.String())] += c.calls
			} else if c.calls > 0 && f.Origin() != nil {
				e.fns[shortFn(f.String())] += c.calls
			}
		}
		e.mu.Unlock()
		m.sess.Close()
	}
}

// donate hands the oldest open choice to idle workers.
func (m *M) donate() {
	if m.E.idleA.Load() == 0 {
		return
	}
	for _, c := range m.choices {
		if len(c.alts) == 0 {
			continue
		}
		var js []*Job
		for _, a := range c.alts {
			d := append([]int32{}, m.decs[:c.k]...)
			d = append(d, a)
			js = append(js, &Job{decs: d})
		}
		c.alts = nil
		m.E.mu.Lock()
		m.E.jobs = append(m.E.jobs, js...)
		m.E.mu.Unlock()
		m.E.cond.Broadcast()
		return
	}
}

func (m *M) runJob(j *Job) {
	m.rollback(0)
	m.truncPC(0)
	m.gs = []*Gor{{}}
	m.cur = 0
	m.nextGor = 0
	m.decs = append([]int32{}, j.decs...)
	m.decPos = 0
	m.pendM = nil
	m.model = NewModel()
	m.vars = m.vars[:0]
	m.obs = nil
	m.reach = nil
	m.choices = nil
	m.steps = 0
	m.names = map[string]int{}
	m.iTrail, m.iPC, m.iDec, m.iObs, m.iReach, m.iVars = 0, 0, 0, 0, 0, 0
	started := false
	for {
		end := m.runPath(&started)
		if end == "stop" {
			return
		}
		m.tsteps += m.steps - m.stepBase
		m.stepBase = m.steps
		e := m.E
		e.mu.Lock()
		if end == "infeasible" {
			e.infeasible++
		} else {
			e.paths++
			e.ends[end]++
		}
		e.mu.Unlock()
		if e.stopped.Load() {
			return
		}
		// backtrack
		for len(m.choices) > 0 && len(m.choices[len(m.choices)-1].alts) == 0 {
			m.choices[len(m.choices)-1] = nil
			m.choices = m.choices[:len(m.choices)-1]
		}
		if len(m.choices) == 0 {
			return
		}
		m.donate()
		for len(m.choices) > 0 && len(m.choices[len(m.choices)-1].alts) == 0 {
			m.choices = m.choices[:len(m.choices)-1]
		}
		if len(m.choices) == 0 {
			return
		}
		c := m.choices[len(m.choices)-1]
		alt := c.alts[len(c.alts)-1]
		c.alts = c.alts[:len(c.alts)-1]
		m.rollback(c.trail)
		m.truncPC(c.pc)
		m.obs = m.obs[:c.nObs]
		m.reach = m.reach[:c.reach]
		m.vars = m.vars[:c.vars]
		m.cur = c.cur
		m.gs = c.gs
		if len(c.alts) > 0 {
			m.gs = m.cloneAll()
		}
		m.decs = append(m.decs[:c.k:c.k], alt)
		m.decPos = c.decPos
		m.pendM = c.model
		m.model = nil
		m.steps = c.steps
		m.stepBase = c.steps
		m.nextGor = c.nextGor
		m.specDepth = 0
		if m.decPos == len(m.decs) {
			panic("choice without decision")
		}
	}
}

func (m *M) cloneAll() []*Gor {
	out := make([]*Gor, len(m.gs))
	for i, g := range m.gs {
		c := *g
		c.frames = append([]*Frame{}, g.frames...)
		for _, f := range c.frames {
			f.shared = true
		}
		out[i] = &c
	}
	return out
}

// runPath continues execution until the path ends.
func (m *M) runPath(started *bool) (end string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd:
			end = x.kind
			if end == "deadlock" {
				if m.H.cfg.Panics != "ignore" {
					m.violation("deadlock", "deadlock", m.stackTrace(), nil)
				}
			}
			if end == "bound" || end == "infeasible" {
				return
			}
		case uncaught:
			end = "panic"
			if m.H.cfg.Panics != "ignore" {
				m.violation("panic", m.panicText(x.p.val), x.p.where, nil)
			}
			m.sample("panic")
		case stopErr:
			end = "stop"
		case engErr:
			end = "unsupported"
			m.E.mu.Lock()
			m.E.errs[x.msg+" at "+m.errAt]++
			m.E.mu.Unlock()
		default:
			panic(r)
		}
	}()
	if !*started {
		*started = true
		m.pushFrame(m.compile(m.H.fn), nil, nil, -1, fkRoot)
	}
	g0 := m.gs[0]
	_ = g0
	m.loop(func() bool { return m.gs[0].done })
	m.sample("ok")
	return "ok"
}

// values of the symbolic inputs under a model, keyed for native replay.
func (m *M) values(mod *Model) map[string]string {
	out := map[string]string{}
	for _, v := range m.vars {
		t := m.tb.Eval(v.t, mod)
		switch {
		case v.t.w == 0:
			out[v.name] = fmt.Sprint(t.u)
		case v.kind == "signed":
			out[v.name] = t.csigned().String()
		default:
			out[v.name] = t.cbig().String()
		}
	}
	return out
}

func (m *M) sample(end string) {
	e := m.E
	e.mu.Lock()
	e.nsamp++
	n := e.nsamp
	for _, r := range m.reach {
		e.reach[r]++
	}
	slot := -1
	if len(e.samples) < e.maxSamples {
		slot = len(e.samples)
		e.samples = append(e.samples, nil)
	} else {
		k := e.rng.Int63n(n)
		if k < int64(e.maxSamples) {
			slot = int(k)
		}
	}
	e.mu.Unlock()
	if slot < 0 {
		return
	}
	if m.model == nil {
		r, mod := m.sess.Check(m.pc, nil, true)
		if r != Sat {
			if r == Unsat {
				e.mu.Lock()
				e.infeasible++
				e.mu.Unlock()
			}
			return
		}
		m.model = mod
	}
	mod := m.model
	if m.nHashes > 0 {
		mod2, ok := m.refineHash(nil, mod)
		if !ok {
			return
		}
		mod = mod2
	}
	s := &Sample{Harness: m.H.cfg.Func, Values: m.values(mod), End: end, Reach: append([]string{}, m.reach...)}
	for _, o := range m.obs {
		s.Obs = append(s.Obs, o.Name+"="+m.obsStr(o.V, mod))
	}
	e.mu.Lock()
	e.samples[slot] = s
	e.mu.Unlock()
}

func (m *M) obsStr(v Val, mod *Model) string {
	switch x := v.p.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case *Term:
		return m.tb.Eval(x, mod).cbig().String()
	}
	return fmt.Sprintf("?%T", v.p)
}

func (m *M) violation(kind, msg, where string, mod *Model, extra ...*Term) {
	e := m.E
	key := kind + "|" + msg + "|" + where
	e.mu.Lock()
	e.violKeys[key]++
	n := e.violKeys[key]
	tot := len(e.viol)
	e.mu.Unlock()
	if n > 3 || tot > 24 {
		if tot > 24 {
			e.stopped.Store(true)
		}
		return
	}
	if mod == nil {
		r, md := m.sess.Check(m.pc, nil, true)
		if r == Unsat {
			return
		}
		if r == Unknown {
			e.mu.Lock()
			e.unkAsserts = append(e.unkAsserts, kind+": "+msg+" (path feasibility undecided)")
			e.mu.Unlock()
			return
		}
		mod = md
	}
	v := &Violation{Harness: m.H.cfg.Func, Kind: kind, Msg: msg, Where: where, Values: m.values(mod), Sched: len(m.gs) > 1 || m.ordered}
	if m.nHashes > 0 {
		if m2, ok := m.refineHash(extra, mod); ok {
			v.Values = m.values(m2)
		} else {
			v.HashUnref = true
		}
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "candidate violation %s %s at %s\n", kind, msg, where)
	}
	e.mu.Lock()
	e.viol = append(e.viol, v)
	e.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trimStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.Join
