package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const prelude = `(declare-sort Sq 0)
(declare-fun s.len (Sq) Int)
(declare-fun s.at (Sq Int) Int)
(declare-fun s.cat (Sq Sq) Sq)
(declare-fun s.sub (Sq Int Int) Sq)
(declare-fun s.rep (Int Int) Sq)
(declare-fun s.arr ((Array Int Int) Int Int) Sq)
(declare-fun a.spl ((Array Int Int) Int Sq) (Array Int Int))
(declare-fun s.eq (Sq Sq) Bool)
(declare-fun s.diff (Sq Sq) Int)
(assert (forall ((s Sq)) (! (<= 0 (s.len s)) :pattern ((s.len s)))))
(assert (forall ((a Sq) (b Sq)) (! (= (s.len (s.cat a b)) (+ (s.len a) (s.len b))) :pattern ((s.cat a b)))))
(assert (forall ((a Sq) (b Sq) (i Int)) (! (and (=> (and (<= 0 i) (< i (s.len a))) (= (s.at (s.cat a b) i) (s.at a i))) (=> (and (<= (s.len a) i) (< i (+ (s.len a) (s.len b)))) (= (s.at (s.cat a b) i) (s.at b (- i (s.len a)))))) :pattern ((s.at (s.cat a b) i)))))
(assert (forall ((s Sq) (o Int) (n Int)) (! (= (s.len (s.sub s o n)) (ite (<= 0 n) n 0)) :pattern ((s.sub s o n)))))
(assert (forall ((s Sq) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (s.at (s.sub s o n) i) (s.at s (+ o i)))) :pattern ((s.at (s.sub s o n) i)))))
(assert (forall ((v Int) (n Int)) (! (= (s.len (s.rep v n)) (ite (<= 0 n) n 0)) :pattern ((s.rep v n)))))
(assert (forall ((v Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (s.at (s.rep v n) i) v)) :pattern ((s.at (s.rep v n) i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (= (s.len (s.arr a o n)) (ite (<= 0 n) n 0)) :pattern ((s.arr a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (s.at (s.arr a o n) i) (select a (+ o i)))) :pattern ((s.at (s.arr a o n) i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (j Int)) (! (=> (and (<= o j) (< j (+ o n))) (= (s.at (s.arr a o n) (- j o)) (select a j))) :pattern ((s.arr a o n) (select a j)))))
(assert (forall ((a (Array Int Int)) (o Int) (s Sq) (j Int)) (! (= (select (a.spl a o s) j) (ite (and (<= o j) (< j (+ o (s.len s)))) (s.at s (- j o)) (select a j))) :pattern ((select (a.spl a o s) j)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (<= (+ i k) n)) (= (s.sub (s.arr a o n) i k) (s.arr a (+ o i) k))) :pattern ((s.sub (s.arr a o n) i k)))))
(assert (forall ((s Sq) (o Int) (n Int) (i Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (<= (+ i k) n)) (= (s.sub (s.sub s o n) i k) (s.sub s (+ o i) k))) :pattern ((s.sub (s.sub s o n) i k)))))
(assert (forall ((s Sq) (n Int)) (! (=> (= n (s.len s)) (= (s.sub s 0 n) s)) :pattern ((s.sub s 0 n)))))
(assert (forall ((a Sq) (b Sq) (i Int) (k Int)) (! (and (=> (and (<= 0 i) (<= 0 k) (<= (+ i k) (s.len a))) (= (s.sub (s.cat a b) i k) (s.sub a i k))) (=> (and (<= (s.len a) i) (<= 0 k) (<= (+ i k) (+ (s.len a) (s.len b)))) (= (s.sub (s.cat a b) i k) (s.sub b (- i (s.len a)) k)))) :pattern ((s.sub (s.cat a b) i k)))))
(assert (forall ((a (Array Int Int)) (o Int) (s Sq) (p Int) (n Int)) (! (and
  (=> (and (<= o p) (<= 0 n) (<= (+ p n) (+ o (s.len s)))) (= (s.arr (a.spl a o s) p n) (s.sub s (- p o) n)))
  (=> (or (<= (+ p n) o) (<= (+ o (s.len s)) p)) (= (s.arr (a.spl a o s) p n) (s.arr a p n)))
  (=> (and (<= p o) (= (+ o (s.len s)) (+ p n))) (= (s.arr (a.spl a o s) p n) (s.cat (s.arr a p (- o p)) s)))) :pattern ((s.arr (a.spl a o s) p n)))))
(assert (forall ((a Sq) (b Sq)) (! (= (s.eq a b) (= a b)) :pattern ((s.eq a b)))))
(assert (forall ((a Sq) (b Sq)) (! (or (s.eq a b) (not (= (s.len a) (s.len b))) (and (<= 0 (s.diff a b)) (< (s.diff a b) (s.len a)) (not (= (s.at a (s.diff a b)) (s.at b (s.diff a b)))))) :pattern ((s.eq a b)))))
`

var z3opts = `(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(set-option :smt.delay_units true)
(set-option :smt.qi.eager_threshold 60)
(set-option :smt.arith.solver 2)
`

type level struct {
	asserts []string
	axAsrt  int
}

// Solver: one persistent z3 process plus a log from which stand-alone scripts
// for the other back ends are written.
type Solver struct {
	c       *Ctx
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inPipe  io.WriteCloser
	decl    map[string]bool
	declLog []string
	named   map[*Term]string
	levels  []level
	axioms  []string // globally valid formulas (lazily asserted)
	axAsrt  int
	timeout int
	curTO   int
	stats   *Stats
	dead    bool
	ufAx    map[string]bool
	hooks   func(s *Solver, uf string) // emits axioms when a UF is first declared
}

type Stats struct {
	mu      sync.Mutex
	queries map[string]int
	solved  map[string]int
	time    map[string]float64
	maxQ    float64
}

func NewStats() *Stats {
	return &Stats{queries: map[string]int{}, solved: map[string]int{}, time: map[string]float64{}}
}
func (s *Stats) add(b string, ok bool, d time.Duration) {
	s.mu.Lock()
	s.queries[b]++
	if ok {
		s.solved[b]++
	}
	s.time[b] += d.Seconds()
	if d.Seconds() > s.maxQ {
		s.maxQ = d.Seconds()
	}
	s.mu.Unlock()
}

func NewSolver(c *Ctx, st *Stats) *Solver {
	s := &Solver{c: c, bin: "z3-new", decl: map[string]bool{}, named: map[*Term]string{}, stats: st, timeout: 3000, ufAx: map[string]bool{}}
	for _, n := range []string{"s.len", "s.at", "s.cat", "s.sub", "s.rep", "s.arr", "a.spl"} {
		s.decl[n] = true
	}
	s.levels = []level{{}}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(s.bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if os.Getenv("GV_TRACE") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.inPipe, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.send(z3opts + prelude)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if os.Getenv("GV_LOG") != "" {
		f, _ := os.OpenFile(os.Getenv("GV_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		f.WriteString(x)
		if !strings.HasSuffix(x, "\n") {
			f.WriteString("\n")
		}
		f.Close()
	}
	s.in.WriteString(x)
	if !strings.HasSuffix(x, "\n") {
		s.in.WriteByte('\n')
	}
}

func q(n string) string {
	for i := 0; i < len(n); i++ {
		ch := n[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("_.!$<>/*-", ch) >= 0) {
			return "|" + n + "|"
		}
	}
	if n == "" || (n[0] >= '0' && n[0] <= '9') || n[0] == '-' {
		return "|" + n + "|"
	}
	return n
}

func bigStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (s *Solver) declare(d string) {
	s.declLog = append(s.declLog, d)
	s.send(d)
}

// str prints a term, declaring symbols and naming large shared subterms.
func (s *Solver) str(t *Term) string {
	if n, ok := s.named[t]; ok {
		return n
	}
	switch t.op {
	case "int":
		return bigStr(t.val)
	case "true", "false":
		return t.op
	case "bvar":
		return q(t.name)
	case "var":
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.declare(fmt.Sprintf("(declare-const %s %s)", q(t.name), t.sort.name))
			if l, ok := s.c.litOf[t]; ok {
				s.axiom(fmt.Sprintf("(= (s.len %s) %d)", q(t.name), len(l)))
				if len(l) <= 80 {
					for i := 0; i < len(l); i++ {
						s.axiom(fmt.Sprintf("(= (s.at %s %d) %d)", q(t.name), i, l[i]))
					}
				}
			}
		}
		return q(t.name)
	}
	var b strings.Builder
	switch t.op {
	case "+":
		var parts []string
		for i, a := range t.args {
			x := s.str(a)
			if t.coefs[i].Cmp(big.NewInt(1)) == 0 {
				parts = append(parts, x)
			} else {
				parts = append(parts, "(* "+bigStr(t.coefs[i])+" "+x+")")
			}
		}
		if t.val.Sign() != 0 {
			parts = append(parts, bigStr(t.val))
		}
		if len(parts) == 1 {
			b.WriteString(parts[0])
		} else {
			b.WriteString("(+ " + strings.Join(parts, " ") + ")")
		}
	case "=":
		if t.args[0].sort == sSeq {
			b.WriteString("(s.eq " + s.str(t.args[0]) + " " + s.str(t.args[1]) + ")")
		} else {
			b.WriteString("(= " + s.str(t.args[0]) + " " + s.str(t.args[1]) + ")")
		}
	case "constarr":
		b.WriteString("((as const " + t.sort.name + ") " + s.str(t.args[0]) + ")")
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, x := range t.binds {
			b.WriteString("(" + q(x.name) + " " + x.sort.name + ")")
		}
		b.WriteString(") ")
		body := s.str(t.args[0])
		trigs := t.trigs
		if len(trigs) == 0 {
			trigs = autoTrig(t)
		}
		if len(trigs) > 0 {
			b.WriteString("(! " + body)
			for _, tr := range trigs {
				b.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(s.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
	default:
		n := t.op
		if n == "app" {
			n = t.name
			if !s.decl[n] {
				s.decl[n] = true
				sg := s.c.ufs[n]
				var as []string
				for _, a := range sg.args {
					as = append(as, a.name)
				}
				s.declare(fmt.Sprintf("(declare-fun %s (%s) %s)", q(n), strings.Join(as, " "), sg.res.name))
				s.ufAxioms(n, sg)
			}
			n = q(n)
		}
		if len(t.args) == 0 {
			b.WriteString(n)
		} else {
			b.WriteString("(" + n)
			for _, a := range t.args {
				b.WriteByte(' ')
				b.WriteString(s.str(a))
			}
			b.WriteByte(')')
		}
	}
	r := b.String()
	if t.ground && len(r) > 120 && t.op != "forall" && t.op != "exists" {
		n := fmt.Sprintf("t!%d", t.id)
		s.declare(fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort.name, r))
		s.named[t] = n
		return n
	}
	return r
}

// autoTrig picks triggers: minimal select/app terms that contain bound variables.
func autoTrig(t *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	has := func(x *Term) int {
		n := 0
		for _, b := range t.binds {
			if occurs(x, b) {
				n++
			}
		}
		return n
	}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x.ground || seen[x] {
			return
		}
		seen[x] = true
		if x.op == "forall" || x.op == "exists" {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		if (x.op == "select" || x.op == "app") && has(x) > 0 && patOK(x) {
			cands = append(cands, x)
		}
	}
	walk(t.args[0])
	var full [][]*Term
	for _, x := range cands {
		if has(x) == len(t.binds) {
			// prefer small ones: skip if it contains another full candidate
			skip := false
			for _, f := range full {
				if f[0] != x && containsTerm(x, f[0]) {
					skip = true
				}
			}
			if !skip {
				full = append(full, []*Term{x})
			}
		}
	}
	if len(full) > 6 {
		full = full[:6]
	}
	if len(full) > 0 {
		return full
	}
	// multi-pattern
	var multi []*Term
	cov := map[*Term]bool{}
	for _, x := range cands {
		add := false
		for _, b := range t.binds {
			if !cov[b] && occurs(x, b) {
				cov[b] = true
				add = true
			}
		}
		if add {
			multi = append(multi, x)
		}
	}
	if len(cov) == len(t.binds) {
		return [][]*Term{multi}
	}
	return nil
}

// patterns may not contain interpreted arithmetic on bound variables as the direct variable position
func patOK(x *Term) bool {
	for _, a := range x.args {
		if a.ground || a.op == "bvar" {
			continue
		}
		switch a.op {
		case "select", "app":
			if !patOK(a) {
				return false
			}
		case "+":
			return false
		default:
			return false
		}
	}
	return true
}

func containsTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if containsTerm(a, x) {
			return true
		}
	}
	return false
}

func (s *Solver) axiom(f string) {
	for _, a := range s.axioms {
		if a == f {
			return
		}
	}
	s.axioms = append(s.axioms, f)
}

func (s *Solver) ufAxioms(n string, sg ufSig) {
	if strings.HasPrefix(n, "a.cpy") {
		s.axiom(fmt.Sprintf("(forall ((d %s) (o Int) (a %s) (p Int) (n Int) (j Int)) (! (= (select (%s d o a p n) j) (ite (and (<= o j) (< j (+ o n))) (select a (+ p (- j o))) (select d j))) :pattern ((select (%s d o a p n) j))))", sg.res.name, sg.args[2].name, q(n), q(n)))
	}
	if s.hooks != nil {
		s.hooks(s, n)
	}
}

func (s *Solver) Push() {
	s.levels = append(s.levels, level{axAsrt: s.axAsrt})
	s.send("(push 1)")
}
func (s *Solver) Pop() {
	l := s.levels[len(s.levels)-1]
	s.levels = s.levels[:len(s.levels)-1]
	s.axAsrt = l.axAsrt
	s.send("(pop 1)")
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	x := s.str(t)
	l := &s.levels[len(s.levels)-1]
	l.asserts = append(l.asserts, x)
	s.send("(assert " + x + ")")
}

func (s *Solver) flushAx() {
	for ; s.axAsrt < len(s.axioms); s.axAsrt++ {
		s.send("(assert " + s.axioms[s.axAsrt] + ")")
	}
}

// restart replaces a solver process that had to be ended, in the same state.
func (s *Solver) restart() {
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
	s.curTO = 0
	for _, d := range s.declLog {
		s.send(d)
	}
	for _, a := range s.axioms {
		s.send("(assert " + a + ")")
	}
	s.axAsrt = len(s.axioms)
	for i := range s.levels {
		if i > 0 {
			s.send("(push 1)")
			s.levels[i].axAsrt = s.axAsrt
		}
		for _, x := range s.levels[i].asserts {
			s.send("(assert " + x + ")")
		}
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Sprintf("solver died: %v (%s)", err, l))
	}
	return strings.TrimSpace(l)
}

// check: "unsat", "sat", "unknown"
func (s *Solver) check(timeout int) string {
	r := s.check1(timeout)
	if r == "canceled" {
		// z3 gave up in the middle of something else than a query
		s.restart()
		r = s.check1(timeout)
		if r == "canceled" {
			s.restart()
			r = "unknown"
		}
	}
	return r
}

// patience multiplies every time limit; see retry in main.go.
var patience = 1

func (s *Solver) check1(timeout int) string {
	timeout *= patience
	if late() {
		return "unknown"
	}
	s.flushAx()
	if timeout != s.curTO {
		s.send(fmt.Sprintf("(set-option :timeout %d)", timeout))
		s.curTO = timeout
	}
	t0 := time.Now()
	s.send("(check-sat)")
	s.in.Flush()
	// z3 does not always heed its time limit
	p := s.cmd.Process
	dog := time.AfterFunc(time.Duration(timeout)*time.Millisecond+4*time.Second, func() { p.Kill() })
	defer dog.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.stats.add(s.bin, false, time.Since(t0))
			s.restart()
			return "unknown"
		}
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown":
			s.stats.add(s.bin, l == "unsat", time.Since(t0))
			return l
		case "":
		case "timeout":
			s.stats.add(s.bin, false, time.Since(t0))
			return "unknown"
		default:
			if strings.HasPrefix(l, "(error") {
				if strings.Contains(l, "cancel") {
					return "canceled"
				}
				panic("solver error: " + l)
			}
		}
	}
}

// Valid tries to prove goal under the current assertions.
func (s *Solver) Valid(goal *Term, timeout int) bool {
	if goal.isTrue() {
		return true
	}
	if goal.op == "and" {
		for _, g := range goal.args {
			if !s.Valid(g, timeout) {
				return false
			}
		}
		return true
	}
	s.Push()
	s.Assert(s.c.Not(s.skolem(goal)))
	r := s.check(timeout)
	s.Pop()
	return r == "unsat"
}

// skolem replaces top-level foralls in a goal by fresh constants.
func (s *Solver) skolem(g *Term) *Term {
	c := s.c
	switch g.op {
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range g.binds {
			m[b] = c.Fresh("sk_"+strings.SplitN(b.name, "?", 2)[0], b.sort)
		}
		return s.skolem(c.Subst(g.args[0], m))
	case "and", "or":
		var as []*Term
		for _, a := range g.args {
			as = append(as, s.skolem(a))
		}
		if g.op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	}
	return g
}

// Script writes a stand-alone script: current assertions plus negated goal.
func (s *Solver) Script(goal *Term, cvc bool) string {
	g := s.str(s.c.Not(s.skolem(goal)))
	var b bytes.Buffer
	if cvc {
		b.WriteString("(set-logic ALL)\n")
	} else {
		b.WriteString(z3opts)
	}
	b.WriteString(prelude)
	for _, d := range s.declLog {
		b.WriteString(d + "\n")
	}
	for _, a := range s.axioms {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, l := range s.levels {
		for _, a := range l.asserts {
			b.WriteString("(assert " + a + ")\n")
		}
	}
	b.WriteString("(assert " + g + ")\n(check-sat)\n")
	return b.String()
}

var tmpDir string
var tmpN int64

// External runs the other back ends on the script, in parallel; first unsat wins.
func (s *Solver) External(goal *Term, secs int) (bool, string) {
	secs *= patience
	if late() {
		return false, ""
	}
	type job struct {
		name string
		args []string
		cvc  bool
	}
	jobs := []job{
		{"z3-new", []string{"-smt2", fmt.Sprintf("-T:%d", secs)}, false},
		{"z3", []string{"-smt2", fmt.Sprintf("-T:%d", secs)}, false},
		{"z3-new", []string{"-smt2", fmt.Sprintf("-T:%d", secs)}, false},
		{"z3", []string{"-smt2", fmt.Sprintf("-T:%d", secs)}, false},
		{"cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, true},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+5)*time.Second)
	defer cancel()
	type res struct {
		name string
		ok   bool
		d    time.Duration
	}
	ch := make(chan res, len(jobs))
	for i, j := range jobs {
		sc := s.Script(goal, j.cvc)
		if i < 2 {
			sc = strings.Replace(sc, "(set-option :smt.arith.solver 2)\n", "", 1)
		}
		f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", atomic.AddInt64(&tmpN, 1)))
		os.WriteFile(f, []byte(sc), 0644)
		go func(j job, f string) {
			t0 := time.Now()
			o, _ := exec.CommandContext(ctx, j.name, append(j.args, f)...).Output()
			ok := strings.HasPrefix(strings.TrimSpace(string(o)), "unsat")
			if !ok && os.Getenv("GV_KEEP") != "" {
			} else {
				os.Remove(f)
			}
			ch <- res{j.name, ok, time.Since(t0)}
		}(j, f)
	}
	for range jobs {
		r := <-ch
		if ctx.Err() == nil || r.ok {
			s.stats.add(r.name+"(standalone)", r.ok, r.d)
		}
		if r.ok {
			return true, r.name
		}
	}
	return false, ""
}

// ExternalAll checks several goals at once, each in processes of its own.
func (s *Solver) ExternalAll(goals []*Term, secs int) []bool {
	secs *= patience
	out := make([]bool, len(goals))
	if late() {
		return out
	}
	type job struct {
		i      int
		bin, f string
	}
	var jobs []job
	for i, g := range goals {
		if g.isFalse() {
			continue
		}
		sc := s.Script(g, false)
		for _, b := range []string{"z3-new", "z3", "z3-new/2", "z3/2"} {
			x := sc
			if !strings.HasSuffix(b, "/2") {
				x = strings.Replace(sc, "(set-option :smt.arith.solver 2)\n", "", 1)
			}
			b = strings.TrimSuffix(b, "/2")
			f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", atomic.AddInt64(&tmpN, 1)))
			os.WriteFile(f, []byte(x), 0644)
			jobs = append(jobs, job{i, b, f})
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	ctxs := make([]context.Context, len(goals))
	cancels := make([]context.CancelFunc, len(goals))
	for i := range goals {
		ctxs[i], cancels[i] = context.WithCancel(context.Background())
		defer cancels[i]()
	}
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j job) {
			defer func() { os.Remove(j.f); <-sem; wg.Done() }()
			mu.Lock()
			done := out[j.i]
			mu.Unlock()
			if done {
				return
			}
			t0 := time.Now()
			o, _ := exec.CommandContext(ctxs[j.i], j.bin, "-smt2", fmt.Sprintf("-T:%d", secs), j.f).Output()
			ok := strings.HasPrefix(strings.TrimSpace(string(o)), "unsat")
			s.stats.add(j.bin+"(standalone)", ok, time.Since(t0))
			if ok {
				cancels[j.i]()
				mu.Lock()
				out[j.i] = true
				mu.Unlock()
			}
		}(j)
	}
	wg.Wait()
	return out
}

// Model values of some integer terms after a failed query (best effort).
func (s *Solver) ModelInts(goal *Term, ts map[string]*Term) map[string]string {
	out := map[string]string{}
	s.Push()
	s.Assert(s.c.Not(s.skolem(goal)))
	var names []string
	for n, t := range ts {
		if t.sort == sInt || t.sort == sBool {
			names = append(names, n)
			s.str(t)
		}
	}
	r := s.check(2000)
	if r != "unsat" && len(names) > 0 {
		for _, n := range names {
			s.send("(get-value (" + s.str(ts[n]) + "))")
			s.in.Flush()
			l := s.readLine()
			if strings.HasPrefix(l, "(error") {
				break
			}
			depth := strings.Count(l, "(") - strings.Count(l, ")")
			for depth > 0 {
				m := s.readLine()
				l += " " + m
				depth += strings.Count(m, "(") - strings.Count(m, ")")
			}
			i := strings.LastIndexByte(strings.TrimRight(l, ")"), ' ')
			v := strings.TrimRight(l[i+1:], ")")
			if strings.HasSuffix(strings.TrimSpace(l[:i]), "(-") {
				v = "-" + v
			}
			out[n] = v
		}
	}
	s.Pop()
	return out
}
