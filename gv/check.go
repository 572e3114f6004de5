package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome of verifying one function against its contract.
type FuncResult struct {
	Name      string
	Obls      []*Obl
	Trusted   map[string]bool
	Inlined   map[string]bool
	Used      map[string]bool
	Axioms    map[string]bool
	Assumes   []string
	Fatal     []string
	Exits     int
	Invs      int
	Steps     int
	Instances int
	Secs      float64
}

func (w *World) newExec(cn *Contract, tags map[string]bool, stats *Stats) *Exec {
	c := NewCtx()
	e := &Exec{w: w, c: c, stats: stats, root: cn, rootName: cn.name,
		compCache: map[string][]Comp{}, rng: map[*Term]interval{}, arrFront: map[*Term]arrFront{}, addrs: map[*Term]*AddrV{},
		embKeys: map[string]bool{}, funcs: map[int]*FuncV{}, asserted: map[*Term]int{}, trusted: map[string]bool{}, inlined: map[string]bool{},
		env: map[string]specVal{}, maxSteps: 60000, tags: tags, globals: map[*ssa.Global]*Term{}, usedContracts: map[string]bool{}, reached: map[string]bool{},
		pureDone: map[string]bool{}, axUsed: map[string]bool{}, kinds: map[string]int{}, initVals: map[string]map[int64]*Term{},
		tids: map[string]int{}, boxes: map[string]boxInfo{}}
	e.s = NewSolver(c, stats)
	e.s.hooks = e.axiomHooks
	e.front0 = c.Var("A!0", sInt)
	c.epochs[e.front0] = 1
	e.undo = append(e.undo, nil)
	e.assume(c.Le(c.Int(100000), e.front0))
	e.loadAxioms()
	return e
}

func (w *World) verify(cn *Contract, tags map[string]bool, stats *Stats) *FuncResult {
	t0 := time.Now()
	r := &FuncResult{Name: cn.name, Trusted: map[string]bool{}, Inlined: map[string]bool{}, Used: map[string]bool{}, Axioms: map[string]bool{}}
	fn := w.byName[cn.name]
	if fn == nil || len(fn.Blocks) == 0 {
		r.Fatal = append(r.Fatal, "function under contract not found in the source: "+cn.name)
		return r
	}
	for _, a := range cn.assumes {
		r.Assumes = append(r.Assumes, cn.name+": "+clauseName(a))
	}
	for _, a := range cn.onexit {
		r.Assumes = append(r.Assumes, cn.name+": by definition, "+clauseName(a))
	}
	// instances: product of the case splits
	idx := make([]int, len(cn.cases))
	for {
		w.verifyInstance(cn, fn, idx, tags, stats, r)
		r.Instances++
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(cn.cases[i].vals) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			break
		}
	}
	r.Secs = time.Since(t0).Seconds()
	return r
}

func (w *World) verifyInstance(cn *Contract, fn *ssa.Function, idx []int, tags map[string]bool, stats *Stats, r *FuncResult) {
	e := w.newExec(cn, tags, stats)
	defer func() {
		e.s.Close()
		r.Obls = append(r.Obls, e.obls...)
		for k := range e.trusted {
			r.Trusted[k] = true
		}
		for k := range e.inlined {
			r.Inlined[k] = true
		}
		for k := range e.usedContracts {
			r.Used[k] = true
		}
		for k := range e.axUsed {
			r.Axioms[k] = true
		}
		r.Exits += e.exits
		r.Invs += e.invs
		r.Steps += e.steps
	}()
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case unsupportedErr:
				r.Fatal = append(r.Fatal, "outside the verifier's reach: "+string(y)+" [path "+strings.Join(e.pathLog, "; ")+"]")
			case specErr:
				r.Fatal = append(r.Fatal, "contract does not fit the code: "+string(y))
			default:
				r.Fatal = append(r.Fatal, fmt.Sprintf("verifier: %v", x))
				if os.Getenv("GV_TRACE") != "" {
					debug.PrintStack()
				}
			}
			if os.Getenv("GV_TRACE") == "2" {
				debug.PrintStack()
			}
		}
	}()
	c := e.c
	e.runInits()
	if os.Getenv("GV_INIT") != "" {
		e.dumpInits()
	}
	pre := &State{heap: map[string]*Term{}, front: e.front0, epoch: 1, ghost: map[string]*Term{}}
	pre.heap["g:acq"] = c.ConstArr(sInt, c.zero) // acquisitions by this activation
	names := cn.params
	pn := paramNames(fn.Signature)
	if len(names) == 0 {
		names = pn
	}
	pts := paramTypes(fn.Signature)
	if len(names) != len(pts) {
		panic(serr("%s: contract names %d parameters, the function has %d", cn.name, len(names), len(pts)))
	}
	var args []Val
	for i, n := range names {
		v := e.freshVal(pre, pts[i], n)
		args = append(args, v)
		if n == "_" || n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		e.env[n] = specVal{v, pts[i]}
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		v := e.freshVal(pre, fv.Type(), fv.Name())
		binds = append(binds, v)
		if _, ok := e.env[fv.Name()]; !ok {
			e.env[fv.Name()] = specVal{v, fv.Type()}
		}
	}
	env := &Env{st: pre, pre: pre, vars: e.env}
	for i, cs := range cn.cases {
		v := cs.vals[idx[i]]
		lit := e.evalTerm(v, env)
		e.inst += fmt.Sprintf("[%s=%s]", nodeStr(cs.n), nodeStr(v))
		t := e.evalTerm(cs.n, env)
		e.assume(c.Eq(t, lit))
		if cs.n.k == "field" {
			x := e.eval(cs.n.a[0], env)
			T := deref(x.t)
			st := T.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == cs.n.s {
					e.store(pre, e.fieldLoc(x.v, T, j), st.Field(j).Type(), lit)
				}
			}
		}
	}
	for _, l := range cn.lets {
		e.env[l.name] = e.eval(l.n, env)
	}
	e.pre = pre.clone()
	env.pre = e.pre
	for _, q := range cn.requires {
		if e.interested(q.tags) {
			e.assume(e.evalBool(q.n, env))
		}
	}
	for _, q := range cn.assumes {
		if e.interested(q.tags) {
			e.assume(e.evalBool(q.n, env))
		}
	}
	e.noPanic = cn.nopanic && e.interested(cn.panicTags)
	for _, p := range cn.panicsIf {
		e.preds = append(e.preds, e.evalBool(p.n, env))
	}
	if e.s.check(4000) == "unsat" {
		e.obls = append(e.obls, &Obl{Func: e.rootName + e.inst, Name: "preconditions are satisfiable", Pos: w.pos(fn.Pos())})
		return
	}
	for _, n := range strings.Fields(cn.opts["secrets"]) {
		if v, ok := e.env[n]; ok {
			e.secrets = append(e.secrets, e.memArr(e.pre, v.v.(*SliceV).base, byteT, Comp{"", sInt, byteT, ""}))
		} else {
			if e.secretUF == nil {
				e.secretUF = map[string]bool{}
			}
			e.secretUF[n] = true
		}
	}
	st0 := e.pre.clone()
	if cn.opts["nowork"] != "" {
		return
	}
	e.runFunc(fn, args, binds, st0, nil, func(st *State, res []Val) { e.atExit(cn, fn, st, res) })
	for _, n := range strings.Fields(cn.opts["reaches"]) {
		if !e.reached[n] {
			e.obls = append(e.obls, &Obl{Func: e.rootName + e.inst, Name: "some path reaches a call of " + n + " (vacuity guard)", Pos: w.pos(fn.Pos())})
		}
	}
	if e.exits == 0 && cn.opts["noreturn"] == "" {
		e.obls = append(e.obls, &Obl{Func: e.rootName + e.inst, Name: "some path reaches the end of the function (vacuity guard)", Pos: w.pos(fn.Pos())})
	}
}

func (e *Exec) atExit(cn *Contract, fn *ssa.Function, st *State, res []Val) {
	if e.serving {
		e.oblige("keeps serving", []string{"C07"}, e.c.F, fn.Pos())
	}
	if e.infeasible() {
		return
	}
	e.exits++
	pos := fn.Pos()
	env := &Env{st: st, pre: e.pre, vars: map[string]specVal{}}
	for n, v := range e.env {
		env.vars[n] = v
	}
	bindResults(env, fn.Signature, res)
	for i, n := range cn.results {
		if i < len(res) {
			env.vars[n] = specVal{res[i], fn.Signature.Results().At(i).Type()}
		}
	}
	e.push()
	for _, u := range cn.uses {
		if e.interested(u.tags) {
			holes := map[string]string{}
			collectHoles(u.n, holes)
			if len(holes) == 0 {
				if t := e.tryEval(u.n, env); t != nil {
					e.mention(t)
				}
			}
		}
	}
	for _, d := range cn.onexit {
		e.assume(e.evalBool(d.n, env))
	}
	for _, en := range cn.ensures {
		if e.interested(en.tags) {
			e.oblige("ensures "+clauseName(en), en.tags, e.evalBool(en.n, env), pos)
		}
	}
	if tags := strings.Split(cn.opts["wipetags"], ","); len(e.secrets)+len(e.secretUF) > 0 && e.interested(tags) {
		for _, r := range st.secret {
			a := e.memArr(st, r, byteT, Comp{"", sInt, byteT, ""})
			j := e.c.BVar("j", sInt)
			g := []*Term{e.c.Forall([]*Term{j}, e.c.Imp(e.c.Le(e.c.zero, j), e.c.Eq(e.c.Select(a, j), e.c.zero)))}
			if cn.opts["keeps"] != "" {
				n, err := parseExpr(cn.opts["keeps"])
				if err != nil {
					panic(serr("keeps: %v", err))
				}
				g = append(g, e.c.Eq(r, e.evalTerm(n, env)))
			}
			e.oblige("copies of key material are wiped", tags, e.c.Or(g...), pos)
		}
	}
	if !cn.modAny {
		e.frame(cn, st, pos)
	}
	e.pop()
}

func isFreshRef(c *Ctx, r *Term) bool {
	for r.op == "app" && (strings.HasPrefix(r.name, "emb!") || strings.HasPrefix(r.name, "elem!")) {
		r = r.args[0]
	}
	return c.frontierOf(r) > 0
}

var unframed = map[string]bool{"g:acq": true, "g:chan#sent": true, "g:chan#closed": true}

// guardedKey: state that a lock guards. Other goroutines change it at any time
// it is not held, so a contract says nothing about it (except operations
// declared atomic, which specify their effect on it).
func (e *Exec) guardedKey(key string) bool {
	if e.guardKeys == nil {
		e.guardKeys = map[string]bool{}
		for _, typ := range sortedKeys(e.w.spec.guards) {
			g := e.w.spec.guards[typ]
			T := e.w.findType(typ)
			if T == nil {
				continue
			}
			s := T.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if !g.fields[s.Field(i).Name()] {
					continue
				}
				for _, cc := range e.comps(s.Field(i).Type()) {
					e.guardKeys[tkey(T)+"."+s.Field(i).Name()+cc.path] = true
				}
				if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
					for _, l := range e.mapLocs(e.c.zero, s.Field(i).Type()) {
						e.guardKeys[l.key] = true
					}
				}
			}
			for _, d := range g.deep {
				j := strings.LastIndexByte(d, '.')
				if T := e.w.findType(d[:j]); T != nil {
					s := T.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == d[j+1:] || d[j+1:] == "*" {
							for _, cc := range e.comps(s.Field(i).Type()) {
								e.guardKeys[tkey(T)+"."+s.Field(i).Name()+cc.path] = true
							}
						}
					}
				}
			}
		}
	}
	return e.guardKeys[key]
}

func (e *Exec) frame(cn *Contract, st *State, pos token.Pos) {
	c := e.c
	env := &Env{st: e.pre, pre: e.pre, vars: e.env}
	mods := e.modLocs(cn, env)
	if cn.opts["private"] != "" {
		// memory that no caller can name; recorded as an assumption
		n, err := parseExpr(cn.opts["private"])
		if err != nil {
			panic(serr("private: %v", err))
		}
		mods = append(mods, modLoc{key: memKey(byteT), ref: e.evalTerm(n, env)})
	}
	for _, key := range sortedKeys(st.heap) {
		t := st.heap[key]
		if strings.HasPrefix(key, "ghost:") || strings.HasPrefix(key, "g:k_") || unframed[key] || (cn.opts["atomic"] == "" && e.guardedKey(key)) {
			continue
		}
		p := e.hget(e.pre, key, t.sort.elem)
		if t == p {
			continue
		}
		var ms []modLoc
		whole := false
		for _, m := range mods {
			if m.key == key {
				if m.ref == nil {
					whole = true
				}
				ms = append(ms, m)
			}
		}
		if whole {
			continue
		}
		goalAt := func(r *Term) *Term {
			now, old := c.Select(t, r), c.Select(p, r)
			var g *Term
			if t.sort.elem.kind == 'a' {
				j := c.BVar("j", t.sort.elem.key)
				var in []*Term
				for _, m := range ms {
					if m.lo != nil {
						in = append(in, c.And(c.Eq(r, m.ref), c.Le(m.lo, j), c.Lt(j, m.hi)))
					}
				}
				in = append(in, c.Eq(c.Select(now, j), c.Select(old, j)))
				g = c.Forall([]*Term{j}, c.Or(in...))
			} else {
				g = c.Eq(now, old)
			}
			or := []*Term{g, c.Le(e.front0, c.App("root", sInt, r))}
			for _, m := range ms {
				if m.lo == nil {
					or = append(or, c.Eq(r, m.ref))
				}
			}
			return c.Or(or...)
		}
		x := t
		seen := map[*Term]bool{}
		for x.op == "store" && x != p {
			r := x.args[1]
			x = x.args[0]
			if seen[r] {
				continue
			}
			seen[r] = true
			if isFreshRef(c, r) {
				continue
			}
			skip := false
			for _, m := range ms {
				if m.lo == nil && m.ref == r {
					skip = true
				}
			}
			if !skip {
				e.oblige("frame: only what the contract lists is modified ("+key+")", nil, goalAt(r), pos)
			}
		}
		if x != p {
			if x.op == "constarr" {
				continue
			}
			r := c.BVar("r", sInt)
			e.oblige("frame: only what the contract lists is modified ("+key+")", nil, c.Forall([]*Term{r}, goalAt(r)), pos)
		}
	}
}

// verifyLemma proves a lemma of the contract files.
func (w *World) verifyLemma(cl Clause, tags map[string]bool, stats *Stats) *FuncResult {
	t0 := time.Now()
	cn := &Contract{name: "lemma " + clauseName(cl), opts: map[string]string{}, inline: map[string]bool{}}
	r := &FuncResult{Name: cn.name, Trusted: map[string]bool{}, Inlined: map[string]bool{}, Used: map[string]bool{}, Axioms: map[string]bool{}, Exits: 1, Instances: 1}
	e := w.newExec(cn, tags, stats)
	defer func() {
		e.s.Close()
		r.Obls = e.obls
		r.Axioms = e.axUsed
		r.Secs = time.Since(t0).Seconds()
		if x := recover(); x != nil {
			r.Fatal = append(r.Fatal, fmt.Sprint(x))
		}
	}()
	st := &State{heap: map[string]*Term{}, front: e.front0, epoch: 1, ghost: map[string]*Term{}}
	e.pre = st
	env := &Env{st: st, pre: st, vars: map[string]specVal{}}
	e.oblige("lemma "+clauseName(cl), cl.tags, e.evalBool(cl.n, env), token.NoPos)
	return r
}

// ---- package initialisation ----

// stableGlobals: package variables that nothing but their initialiser assigns.
// deep: neither is what they refer to.
func (w *World) stableGlobals() (stable, deep map[*ssa.Global]bool) {
	stable, deep = map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	for g := range w.gids {
		stable[g], deep[g] = true, true
	}
	var fns []*ssa.Function
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, f := range w.byName {
		if f.Parent() == nil {
			addFn(f)
		}
	}
	for _, f := range fns {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if !readOnlyUses(x, map[ssa.Value]bool{}) {
							deep[g] = false
						}
					case *ssa.DebugRef:
					case *ssa.Store:
						if !isInit || x.Val == *op {
							stable[g] = false
						}
					default:
						if !isInit {
							stable[g] = false
						}
					}
				}
			}
		}
	}
	return
}

func readOnlyUses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
	default:
		return true
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.Phi:
			if !readOnlyUses(x, seen) {
				return false
			}
		case *ssa.UnOp:
			if !readOnlyUses(x, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnlyUses(x, seen) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[1] == v && x.Call.Args[0] != v {
				continue
			}
			if f := x.Call.StaticCallee(); f != nil && (f.String() == "bytes.Equal" || f.String() == "bytes.Compare") {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func (e *Exec) runInits() {
	e.w.mu.Lock()
	if e.w.stable == nil {
		e.w.stable, e.w.deep = e.w.stableGlobals()
	}
	e.w.mu.Unlock()
	base := int64(10000)
	for _, p := range e.w.pkgs {
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		st := &State{heap: map[string]*Term{}, front: e.c.Int(base), ghost: map[string]*Term{}}
		var end *State
		func() {
			e.suppress++
			e.inInit = true
			saveT := e.trusted
			e.trusted = map[string]bool{}
			defer func() {
				e.suppress--
				e.inInit = false
				e.inlined = map[string]bool{}
				e.trusted = saveT
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
					end = nil
				}
			}()
			n := 0
			e.runFunc(fn, nil, nil, st, nil, func(s *State, _ []Val) { n++; end = s })
			if n != 1 {
				end = nil
			}
		}()
		if end == nil {
			continue
		}
		if e.frontTerm(end).isInt() {
			base = e.frontTerm(end).val.Int64()
		}
		vals := map[string]map[int64]*Term{}
		for key, t := range end.heap {
			m := map[int64]*Term{}
			for x := t; x.op == "store"; x = x.args[0] {
				if x.args[1].isInt() {
					r := x.args[1].val.Int64()
					if _, ok := m[r]; !ok {
						m[r] = x.args[2]
					}
				}
			}
			vals[key] = m
		}
		keep := map[int64]bool{}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || !e.w.stable[g] {
				continue
			}
			id := int64(e.w.gids[g])
			keep[id] = true
			if e.w.deep[g] {
				T := deref(g.Type())
				switch T.Underlying().(type) {
				case *types.Slice, *types.Map:
					for _, cc := range e.comps(T) {
						if cc.role == "base" || cc.role == "" {
							if v := vals["cell:"+tkey(T)+cc.path][id]; v != nil && v.isInt() {
								keep[v.val.Int64()] = true
							}
						}
					}
				}
			}
		}
		for key, m := range vals {
			for r, v := range m {
				if keep[r] {
					if e.initVals[key] == nil {
						e.initVals[key] = map[int64]*Term{}
					}
					e.initVals[key][r] = v
				}
			}
		}
	}
	e.steps = 0
}

func (e *Exec) dumpInits() {
	for _, k := range sortedKeys(e.initVals) {
		for r, v := range e.initVals[k] {
			fmt.Fprintf(os.Stderr, "init %s[%d] = %s\n", k, r, v)
		}
	}
	for g, ok := range e.w.stable {
		fmt.Fprintf(os.Stderr, "global %s id %d stable %v deep %v\n", g, e.w.gids[g], ok, e.w.deep[g])
	}
}
