package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallback int
	Time                                   time.Duration
	MaxTime                                time.Duration
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Fallback += o.Fallback
	s.Time += o.Time
	if o.MaxTime > s.MaxTime {
		s.MaxTime = o.MaxTime
	}
}

// Session is one incremental solver process whose assertion stack mirrors a path condition.
type Session struct {
	tb      *TB
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	defs    map[int32]int // term id -> level defined
	levels  [][]int32     // defs per level
	declare map[*Term]bool
	vars    []*Term
	buf     bytes.Buffer
	stats   SolverStats
	tmo     int // ms for the incremental check
	slowTmo time.Duration
	dead    bool
	dump    string
}

var z3Bin = envOr("VERIF_Z3", "z3-new")
var cvc5Bin = envOr("VERIF_CVC5", "cvc5")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func NewSession(tb *TB) *Session {
	s := &Session{tb: tb, tmo: 4000, slowTmo: 90 * time.Second}
	s.start()
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command(z3Bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprint("cannot start solver: ", err))
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defs = map[int32]int{}
	s.levels = [][]int32{nil}
	s.declare = map[*Term]bool{}
	s.vars = nil
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.tmo)
	s.dead = false
}

func (s *Session) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Session) restart() {
	s.Close()
	s.start()
}

// emit definitions for all subterms of t.
func (s *Session) define(t *Term) {
	switch t.op {
	case OpConst:
		return
	case OpVar:
		if !s.declare[t] {
			s.declare[t] = true
			s.vars = append(s.vars, t)
			// declarations made inside a push scope vanish on pop: track like a definition
			fmt.Fprintf(&s.buf, "(declare-fun |%s| () %s)\n", t.name, sortStr(t.w))
			l := len(s.levels) - 1
			s.levels[l] = append(s.levels[l], -1-t.id)
		}
		return
	}
	if _, ok := s.defs[t.id]; ok {
		return
	}
	// iterative DFS to avoid deep recursion
	type fr struct {
		t *Term
		i int8
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < f.t.na {
			c := f.t.a[f.i]
			f.i++
			if c.op == OpConst {
				continue
			}
			if c.op == OpVar {
				s.define(c)
				continue
			}
			if _, ok := s.defs[c.id]; !ok {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if _, ok := s.defs[x.id]; ok {
			continue
		}
		fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", x.id, sortStr(x.w), x.body())
		l := len(s.levels) - 1
		s.defs[x.id] = l
		s.levels[l] = append(s.levels[l], x.id)
	}
}

func (s *Session) push() {
	s.buf.WriteString("(push 1)\n")
	s.levels = append(s.levels, nil)
}

func (s *Session) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(&s.buf, "(pop %d)\n", n)
	for i := 0; i < n; i++ {
		l := len(s.levels) - 1
		for _, id := range s.levels[l] {
			if id < 0 {
				vid := -1 - id
				for j := len(s.vars) - 1; j >= 0; j-- {
					if s.vars[j].id == vid {
						delete(s.declare, s.vars[j])
						s.vars = append(s.vars[:j], s.vars[j+1:]...)
						break
					}
				}
			} else {
				delete(s.defs, id)
			}
		}
		s.levels = s.levels[:l]
	}
}

func (s *Session) sync(pc []*Term) {
	if s.dead {
		s.restart()
	}
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k]
	for ; k < len(pc); k++ {
		s.push()
		s.define(pc[k])
		fmt.Fprintf(&s.buf, "(assert %s)\n", pc[k].ref())
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Session) flush() {
	if s.dump != "" {
		f, _ := os.OpenFile(s.dump, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		f.Write(s.buf.Bytes())
		f.Close()
	}
	if _, err := s.in.Write(s.buf.Bytes()); err != nil {
		s.dead = true
	}
	s.buf.Reset()
}

func (s *Session) readLine(hard time.Duration) (string, bool) {
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.dead = true
			return "", false
		}
		return strings.TrimSpace(r.l), true
	case <-time.After(hard):
		s.dead = true
		s.cmd.Process.Kill()
		return "", false
	}
}

// readSexp reads one balanced s-expression.
func (s *Session) readSexp() (string, bool) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return "", false
		}
		sb.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), true
		}
	}
}

// Check decides pc ∧ extra. strong=true falls back to a portfolio of one-shot solvers on unknown.
var slowQ = func() time.Duration {
	d, _ := time.ParseDuration(os.Getenv("VERIF_SLOW"))
	return d
}()

func (s *Session) Check(pc []*Term, extra *Term, strong bool) (Result, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.stats.Time += d
		if d > s.stats.MaxTime {
			s.stats.MaxTime = d
		}
		if slowQ > 0 && d > slowQ {
			x := "-"
			if extra != nil {
				x = extra.str(14)
			}
			fmt.Fprintf(os.Stderr, "SLOW %.1fs %s\n", d.Seconds(), trimStr(x, 3000))
			for _, p := range pc {
				fmt.Fprintf(os.Stderr, "   pc %s\n", trimStr(p.str(8), 300))
			}
		}
	}()
	s.stats.Queries++
	if extra == s.tb.False {
		s.stats.Unsat++
		return Unsat, nil
	}
	r, m := s.check1(pc, extra)
	if r == Unknown && strong {
		s.stats.Fallback++
		r, m = s.oneShot(pc, extra)
	}
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return r, m
}

func (s *Session) check1(pc []*Term, extra *Term) (Result, *Model) {
	s.sync(pc)
	if extra != nil {
		s.push()
		s.define(extra)
		fmt.Fprintf(&s.buf, "(assert %s)\n", extra.ref())
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	res := Unknown
	var m *Model
	for {
		l, ok := s.readLine(time.Duration(s.tmo)*time.Millisecond*3 + 10*time.Second)
		if !ok {
			return Unknown, nil
		}
		if l == "" {
			continue
		}
		if l == "sat" {
			res = Sat
		} else if l == "unsat" {
			res = Unsat
		} else if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			s.dead = true
			s.cmd.Process.Kill()
			return Unknown, nil
		}
		break
	}
	if res == Sat {
		m = NewModel()
		if len(s.vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range s.vars {
				s.buf.WriteString(v.ref())
				s.buf.WriteByte(' ')
			}
			s.buf.WriteString("))\n")
			s.flush()
			txt, ok := s.readSexp()
			if !ok || !parseModel(s.tb, txt, s.vars, m) {
				fmt.Fprintln(os.Stderr, "bad model:", txt)
				s.dead = true
				s.cmd.Process.Kill()
				return Unknown, nil
			}
		}
	}
	if res == Unknown {
		// a timeout may still cancel the commands that follow it: start over
		s.dead = true
		s.cmd.Process.Kill()
		return Unknown, nil
	}
	if extra != nil {
		s.pop(1)
	}
	return res, m
}

func parseModel(tb *TB, txt string, vars []*Term, m *Model) bool {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	i := 0
	var tok func() string
	tok = func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		switch txt[i] {
		case '(', ')':
			i++
			return txt[i-1 : i]
		case '|':
			j := strings.IndexByte(txt[i+1:], '|')
			r := txt[i : i+j+2]
			i += j + 2
			return r
		}
		j := i
		for j < len(txt) && !strings.ContainsRune(" \n\t\r()", rune(txt[j])) {
			j++
		}
		r := txt[i:j]
		i = j
		return r
	}
	if tok() != "(" {
		return false
	}
	for {
		t := tok()
		if t == ")" {
			return true
		}
		if t != "(" {
			return false
		}
		name := strings.Trim(tok(), "|")
		v := byName[name]
		if v == nil {
			return false
		}
		val := tok()
		var c *Term
		neg := false
		if val == "(" {
			h := tok()
			if h == "-" {
				neg = true
				val = tok()
				if tok() != ")" {
					return false
				}
			} else if h == "_" { // (_ bvN w)
				n := tok()
				tok()
				if tok() != ")" {
					return false
				}
				b, ok := new(big.Int).SetString(strings.TrimPrefix(n, "bv"), 10)
				if !ok {
					return false
				}
				c = tb.CB(b, v.w)
			} else {
				return false
			}
		}
		if c == nil {
			switch {
			case val == "true":
				c = tb.True
			case val == "false":
				c = tb.False
			case strings.HasPrefix(val, "#x"):
				b, _ := new(big.Int).SetString(val[2:], 16)
				c = tb.CB(b, v.w)
			case strings.HasPrefix(val, "#b"):
				b, _ := new(big.Int).SetString(val[2:], 2)
				c = tb.CB(b, v.w)
			default:
				b, ok := new(big.Int).SetString(val, 10)
				if !ok {
					return false
				}
				if neg {
					b.Neg(b)
				}
				c = tb.CB(b, v.w)
			}
		}
		m.v[v] = c
		if tok() != ")" {
			return false
		}
	}
}

// script renders a complete one-shot query.
func script(tb *TB, pc []*Term, extra *Term, cvc bool) (string, []*Term) {
	var sb strings.Builder
	seen := map[*Term]bool{}
	var vars []*Term
	hasInt := false
	var body strings.Builder
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.op == OpConst {
			if t.w == -1 {
				hasInt = true
			}
			return
		}
		seen[t] = true
		if t.w == -1 {
			hasInt = true
		}
		if t.op == OpVar {
			vars = append(vars, t)
			fmt.Fprintf(&body, "(declare-fun |%s| () %s)\n", t.name, sortStr(t.w))
			return
		}
		for i := 0; i < int(t.na); i++ {
			visit(t.a[i])
		}
		fmt.Fprintf(&body, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), t.body())
	}
	all := append(append([]*Term{}, pc...), extra)
	for _, t := range all {
		if t == nil {
			continue
		}
		visit(t)
		fmt.Fprintf(&body, "(assert %s)\n", t.ref())
	}
	if cvc {
		sb.WriteString("(set-option :produce-models true)\n")
		if hasInt {
			sb.WriteString("(set-logic ALL)\n")
		} else {
			sb.WriteString("(set-logic QF_BV)\n")
		}
	} else if !hasInt {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n(get-value (")
	for _, v := range vars {
		sb.WriteString(v.ref() + " ")
	}
	sb.WriteString("))\n")
	return sb.String(), vars
}

func (s *Session) oneShot(pc []*Term, extra *Term) (Result, *Model) {
	type ans struct {
		r    Result
		out  string
		vars []*Term
		who  string
	}
	ctx, cancel := context.WithTimeout(context.Background(), s.slowTmo)
	defer cancel()
	ch := make(chan ans, 8)
	run := func(who string, cvc bool, name string, args ...string) {
		txt, vars := script(s.tb, pc, extra, cvc)
		go func() {
			cmd := exec.CommandContext(ctx, name, args...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.CombinedOutput()
			o := string(out)
			a := ans{Unknown, o, vars, who}
			first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
			switch first {
			case "sat":
				a.r = Sat
			case "unsat":
				a.r = Unsat
			}
			ch <- a
		}()
	}
	n := 0
	run("z3new", false, z3Bin, "-in", "-smt2")
	n++
	run("cvc5", true, cvc5Bin, "--lang=smt2")
	n++
	run("cvc5int", true, cvc5Bin, "--lang=smt2", "--solve-bv-as-int=sum")
	n++
	run("z3old", false, "z3", "-in", "-smt2")
	n++
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == Unsat {
			return Unsat, nil
		}
		if a.r == Sat {
			m := NewModel()
			if len(a.vars) == 0 {
				return Sat, m
			}
			rest := a.out[strings.Index(a.out, "\n")+1:]
			if parseModel(s.tb, rest, a.vars, m) {
				// validate: models from any solver must satisfy the query
				okm := extra == nil || s.tb.Eval(extra, m) == s.tb.True
				for _, p := range pc {
					okm = okm && s.tb.Eval(p, m) == s.tb.True
				}
				if okm {
					return Sat, m
				}
				fmt.Fprintln(os.Stderr, "one-shot model from", a.who, "does not satisfy the query; ignored")
			}
		}
	}
	return Unknown, nil
}
