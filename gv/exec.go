package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// deadline for the proof part of a check.
var deadline time.Time

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopCtx
	unroll map[*ssa.BasicBlock]int
	seen   map[*ssa.BasicBlock]string // counter values at the iterations unrolled so far
	depth  int
	binds  []Val
	params []Val
	parent *Frame
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, regs: make(map[ssa.Value]Val, len(f.regs)+8), defers: f.defers[:len(f.defers):len(f.defers)], loops: make(map[*ssa.BasicBlock]*loopCtx, len(f.loops)), unroll: map[*ssa.BasicBlock]int{}, seen: map[*ssa.BasicBlock]string{}, depth: f.depth, binds: f.binds, params: f.params, parent: f.parent}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	for k, v := range f.seen {
		n.seen[k] = v
	}
	return n
}

// Obl is one proof obligation instance.
type Obl struct {
	Func   string
	Name   string
	Tags   []string
	Pos    string
	OK     bool
	By     string
	Script string
	Model  map[string]string
	Path   []string
	Goal   string
}

type lockedObj struct {
	g   *guardDecl
	obj *Term
}

type Exec struct {
	locked    []lockedObj
	secrets   []*Term
	secretUF  map[string]bool
	w         *World
	c         *Ctx
	s         *Solver
	stats     *Stats
	root      *Contract
	rootName  string
	compCache map[string][]Comp
	rng       map[*Term]interval
	arrFront  map[*Term]arrFront
	callPos   token.Pos
	guardKeys map[string]bool
	front0    *Term
	addrs     map[*Term]*AddrV
	embKeys   map[string]bool
	funcs     map[int]*FuncV
	nfunc     int
	asserted  map[*Term]int
	undo      [][]*Term
	obls      []*Obl
	suppress  int
	trusted   map[string]bool
	inlined   map[string]bool
	pre       *State // entry state of the root function
	env       map[string]specVal
	paths     int
	steps     int
	exits     int
	maxSteps  int
	reached   map[string]bool // functions called on some path
	pathLog   []string
	fatal     []string
	tags      map[string]bool // properties of interest (nil: all)
	globals   map[*ssa.Global]*Term
	inst      string
	serving   bool // clients are being answered
	goRegions []goRegion
	curGo     int
	specDepth int
	noPanic   bool
	inInit    bool

	noContract    string
	usedContracts map[string]bool
	nGo, inGo     int
	exitK         kont
	selSend       bool
	pureDone      map[string]bool
	axTerms       []axTerm
	axDone        []bool
	axUsed        map[string]bool
	kinds         map[string]int
	logConds      []*[]*Term
	invs          int
	initVals      map[string]map[int64]*Term
	tids          map[string]int
	tlist         []types.Type
	boxes         map[string]boxInfo
	preds         []*Term // panics_if conditions of the root, entry state
	exitFn        func(st *State, res []Val)
}

type goRegion struct {
	g      int
	key    string
	base   *Term
	lo, hi *Term
}

func (e *Exec) push() {
	e.s.Push()
	e.undo = append(e.undo, nil)
}
func (e *Exec) pop() {
	e.s.Pop()
	for _, t := range e.undo[len(e.undo)-1] {
		delete(e.asserted, t)
	}
	e.undo = e.undo[:len(e.undo)-1]
}
func (e *Exec) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			e.assume(a)
		}
		return
	}
	if _, ok := e.asserted[t]; ok {
		return
	}
	e.asserted[t] = 1
	if len(e.undo) > 0 {
		e.undo[len(e.undo)-1] = append(e.undo[len(e.undo)-1], t)
	}
	e.s.Assert(t)
}
func (e *Exec) known(t *Term) bool {
	if t.isTrue() {
		return true
	}
	_, ok := e.asserted[t]
	return ok
}

const quickTO = 1500

func (e *Exec) valid(t *Term) bool {
	if t.isFalse() {
		return e.infeasible()
	}
	if e.known(t) {
		return true
	}
	return e.s.Valid(t, quickTO)
}
func (e *Exec) infeasible() bool {
	if _, ok := e.asserted[e.c.F]; ok {
		return true
	}
	return e.s.check(quickTO) == "unsat"
}

type stopPath struct{}

// oblige records and discharges one obligation, then assumes it.
func (e *Exec) oblige(name string, tags []string, goal *Term, pos token.Pos) {
	e.obligeT(name, tags, goal, pos, 20)
}
func (e *Exec) obligeT(name string, tags []string, goal *Term, pos token.Pos, secs int) {
	if e.suppress > 0 {
		e.assume(goal)
		return
	}
	if !e.interested(tags) {
		e.assume(goal)
		return
	}
	if goal.op == "and" {
		for _, g := range goal.args {
			e.obligeT(name, tags, g, pos, secs)
		}
		return
	}
	o := &Obl{Func: e.rootName + e.inst, Name: name, Tags: tags, Pos: e.w.pos(pos)}
	e.obls = append(e.obls, o)
	switch {
	case e.known(goal):
		o.OK, o.By = true, "path-fact"
	case e.s.Valid(goal, 6000):
		o.OK, o.By = true, e.s.bin
	default:
		if e.fails(name) < 2 {
			if ok, by := e.s.External(goal, secs); ok {
				o.OK, o.By = true, by
			}
		}
	}
	if !o.OK {
		o.Path = append([]string{}, e.pathLog...)
		o.Goal = goal.String()
		if e.fails(name) <= 1 {
			ts := map[string]*Term{}
			for n, v := range e.env {
				switch x := v.v.(type) {
				case *Term:
					ts[n] = x
				case *SliceV:
					ts["len("+n+")"] = x.len
				}
			}
			o.Model = e.s.ModelInts(goal, ts)
		}
	}
	e.assume(goal)
}
func (e *Exec) fails(name string) int {
	n := 0
	for _, o := range e.obls {
		if !o.OK && o.Name == name {
			n++
		}
	}
	return n
}
func (e *Exec) interested(tags []string) bool {
	if e.tags == nil || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if e.tags[t] {
			return true
		}
	}
	return false
}

// mustNotPanic: cond must hold or the Go program panics here.
func (e *Exec) mustNotPanic(cond *Term, what string, pos token.Pos) {
	if cond.isTrue() || e.known(cond) {
		return
	}
	if e.noPanic && e.suppress == 0 {
		g := cond
		for _, p := range e.preds {
			g = e.c.Or(g, p)
		}
		e.oblige("no-panic: "+what, e.root.panicTags, g, pos)
		e.assume(cond)
		return
	}
	e.assume(cond)
}

// branch explores both sides of a condition.
func (e *Exec) branch(cond *Term, yes, no func()) {
	if cond.isTrue() {
		yes()
		return
	}
	if cond.isFalse() {
		no()
		return
	}
	for _, l := range e.logConds {
		*l = append(*l, cond)
	}
	nc := e.c.Not(cond)
	if e.known(cond) {
		yes()
		return
	}
	if e.known(nc) {
		no()
		return
	}
	y, n := true, true
	if e.s.Valid(nc, quickTO) {
		y = false
	} else if e.s.Valid(cond, quickTO) {
		n = false
	}
	if y {
		e.push()
		e.assume(cond)
		pl := len(e.pathLog)
		yes()
		e.pathLog = e.pathLog[:pl]
		e.pop()
	}
	if n {
		e.push()
		e.assume(nc)
		pl := len(e.pathLog)
		no()
		e.pathLog = e.pathLog[:pl]
		e.pop()
	}
}

// ---- running functions ----

type kont func(st *State, res []Val)

func (e *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State, parent *Frame, k kont) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}, seen: map[*ssa.BasicBlock]string{}, parent: parent, params: args, binds: binds}
	if parent != nil {
		fr.depth = parent.depth + 1
		if fr.depth > 14 {
			panic(unsupported("call depth at " + fn.String()))
		}
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = binds[i]
	}
	e.goBlock(fr, nil, fn.Blocks[0], st, k)
}

func (e *Exec) goBlock(fr *Frame, pred, b *ssa.BasicBlock, st *State, k kont) {
	e.steps++
	if e.steps > e.maxSteps {
		panic(unsupported("step limit (path explosion)"))
	}
	if late() {
		panic(unsupported("time limit"))
	}
	// leaving loops
	if pred != nil {
		for h, lc := range fr.loops {
			if lc != nil && lc.blocks[pred] && !lc.blocks[b] {
				if lc.probing {
					return
				}
				delete(fr.loops, h)
			}
		}
		for h := range fr.unroll {
			if lp := e.w.loopAt(h); lp.blocks[pred] && !lp.blocks[b] {
				delete(fr.unroll, h)
				delete(fr.seen, h)
			}
		}
	}
	if lp := e.w.loopAt(b); lp != nil {
		if lc := fr.loops[b]; lc != nil && pred != nil && lp.blocks[pred] {
			e.phis(fr, pred, b, st)
			lc.onBack(fr, st)
			return
		}
		e.phis(fr, pred, b, st)
		e.atLoop(fr, b, lp, st, k)
		return
	}
	e.phis(fr, pred, b, st)
	e.instrs(fr, b, 0, st, k)
}

func (e *Exec) phis(fr *Frame, pred, b *ssa.BasicBlock, st *State) {
	if pred == nil {
		return
	}
	var idx = -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, e.val(fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.regs[p] = vals[i]
	}
}

func (e *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return e.globalRef(x)
	case *ssa.Builtin:
		return builtinV{x.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (e *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := e.globals[g]; ok {
		return t
	}
	id, ok := e.w.gids[g]
	if !ok {
		id = 2000 + len(e.globals)
	}
	t := e.c.Int(int64(id))
	e.globals[g] = t
	return t
}

// extGlobal: the value of a dependency's package variable, taken to be constant.
func (e *Exec) extGlobal(name string, T types.Type) (Val, bool) {
	id := e.c.Int(int64(-1000 - e.typeID("!err:"+name, nil)))
	switch T.Underlying().(type) {
	case *types.Interface:
		if tkey(T) == "error" {
			return e.extErr(name), true
		}
		return &IfaceV{e.c.Int(int64(e.typeID("!ext:"+name, nil))), id}, true
	case *types.Pointer:
		return e.c.Int(int64(3000 + e.typeID("!err:"+name, nil))), true
	}
	return nil, false
}

func (e *Exec) constVal(x *ssa.Const) Val {
	c := e.c
	if x.Value == nil {
		return e.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(x.Value))
	case constant.String:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			panic(unsupported("const slice"))
		}
		return c.Lit(constant.StringVal(x.Value))
	case constant.Int:
		b, _ := new(big.Int).SetString(x.Value.ExactString(), 10)
		if b == nil {
			panic(unsupported("const " + x.String()))
		}
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return c.Var("float!"+x.Value.ExactString(), sInt)
		}
		return c.Big(b)
	default:
		return c.Var("float!"+sanitize(x.Value.ExactString()), sInt)
	}
}

func (e *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, k kont) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.goBlock(fr, b, b.Succs[0], st, k)
			return
		case *ssa.If:
			cond := e.val(fr, x.Cond).(*Term)
			line := e.w.pos(x.Cond.Pos())
			e.branch(cond, func() {
				e.pathLog = append(e.pathLog, line+" true")
				e.goBlock(fr.clone(), b, b.Succs[0], st.clone(), k)
			}, func() {
				e.pathLog = append(e.pathLog, line+" false")
				e.goBlock(fr.clone(), b, b.Succs[1], st.clone(), k)
			})
			return
		case *ssa.Return:
			for _, lc := range fr.loops {
				if lc != nil && lc.probing {
					return
				}
			}
			var res []Val
			for _, r := range x.Results {
				res = append(res, e.val(fr, r))
			}
			k(st, res)
			return
		case *ssa.Panic:
			e.mustNotPanic(e.c.F, "explicit panic", x.Pos())
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			j := i
			e.runDefers(fr, ds, st, func(fr2 *Frame, st2 *State) { e.instrs(fr2, b, j+1, st2, k) })
			return
		case *ssa.Defer:
			var fv Val
			if x.Call.IsInvoke() {
				fv = e.val(fr, x.Call.Value)
			} else {
				fv = e.val(fr, x.Call.Value)
			}
			var as []Val
			for _, a := range x.Call.Args {
				as = append(as, e.val(fr, a))
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{&x.Call, fv, as})
		case *ssa.Go:
			j := i
			e.goStmt(fr, x, st, func(st2 *State, _ []Val) { e.instrs(fr.clone(), b, j+1, st2, k) })
			return
		case *ssa.Call:
			j := i
			var as []Val
			for _, a := range x.Call.Args {
				as = append(as, e.val(fr, a))
			}
			fv := e.val(fr, x.Call.Value)
			e.call(fr, &x.Call, fv, as, x.Pos(), st, func(st2 *State, res []Val) {
				f2 := fr.clone()
				f2.regs[x] = e.packRes(res, x.Type())
				e.instrs(f2, b, j+1, st2, k)
			})
			return
		case *ssa.Select:
			j := i
			e.selectStmt(fr, x, st, func(f2 *Frame, st2 *State) { e.instrs(f2, b, j+1, st2, k) })
			return
		case *ssa.Next:
			j := i
			e.next(fr, x, st, func(f2 *Frame, st2 *State) { e.instrs(f2, b, j+1, st2, k) })
			return
		case *ssa.TypeAssert:
			if x.CommaOk {
				j := i
				v := e.val(fr, x.X).(*IfaceV)
				okc := e.implements(v, x.AssertedType)
				e.branch(okc, func() {
					f2 := fr.clone()
					f2.regs[x] = TupleV{e.assertTo(v, x.AssertedType), e.c.T}
					s2 := st.clone()
					e.typeFacts(s2, f2.regs[x].(TupleV)[0], x.AssertedType)
					e.instrs(f2, b, j+1, s2, k)
				}, func() {
					f2 := fr.clone()
					f2.regs[x] = TupleV{e.zero(x.AssertedType), e.c.F}
					e.instrs(f2, b, j+1, st.clone(), k)
				})
				return
			}
			v := e.val(fr, x.X).(*IfaceV)
			e.mustNotPanic(e.implements(v, x.AssertedType), "type assertion to "+tkey(x.AssertedType), x.Pos())
			r := e.assertTo(v, x.AssertedType)
			e.typeFacts(st, r, x.AssertedType)
			fr.regs[x] = r
		default:
			e.simple(fr, in, st)
		}
	}
}

func (e *Exec) packRes(res []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return TupleV{}
		}
		return TupleV(res)
	}
	if len(res) == 0 {
		return TupleV{}
	}
	return res[0]
}

func (e *Exec) runDefers(fr *Frame, ds []deferred, st *State, k func(*Frame, *State)) {
	if len(ds) == 0 {
		k(fr, st)
		return
	}
	d := ds[len(ds)-1]
	e.call(fr, d.call, d.fn, d.args, d.call.Pos(), st, func(st2 *State, _ []Val) {
		e.runDefers(fr.clone(), ds[:len(ds)-1], st2, k)
	})
}

func (e *Exec) implements(v *IfaceV, t types.Type) *Term {
	c := e.c
	if it, ok := t.Underlying().(*types.Interface); ok {
		if v.tag.isInt() {
			if v.tag.val.Sign() == 0 {
				return c.F
			}
			ct := e.typeByID(int(v.tag.val.Int64()))
			if ct != nil {
				return c.Bool(types.Implements(ct, it))
			}
		}
		if it.NumMethods() == 0 {
			return c.Ne(v.tag, c.zero)
		}
		return c.And(c.Ne(v.tag, c.zero), c.App("implements!"+tkey(t), sBool, v.tag))
	}
	return c.Eq(v.tag, e.tagOf(t))
}
func (e *Exec) assertTo(v *IfaceV, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return e.unbox(v, t)
}

func (e *Exec) nilCheck(p Val, pos token.Pos, what string) {
	if t, ok := p.(*Term); ok {
		if e.c.frontierOf(t) > 0 || (t.op == "app" && (strings.HasPrefix(t.name, "emb!") || strings.HasPrefix(t.name, "elem!"))) {
			return
		}
		if _, ok := e.addrs[t]; ok {
			return
		}
		e.mustNotPanic(e.c.Ne(t, e.c.zero), "nil dereference "+what, pos)
	}
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (e *Exec) simple(fr *Frame, in ssa.Instruction, st *State) {
	c := e.c
	switch x := in.(type) {
	case *ssa.Alloc:
		T := deref(x.Type())
		r := e.alloc(st)
		e.store(st, r, T, e.zero(T))
		e.lockInit(st, r, T)
		fr.regs[x] = r
	case *ssa.UnOp:
		fr.regs[x] = e.unop(fr, x, st)
	case *ssa.BinOp:
		fr.regs[x] = e.binop(x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Type(), x.Pos())
	case *ssa.Store:
		p := e.val(fr, x.Addr)
		T := deref(x.Addr.Type())
		e.nilCheck(p, x.Pos(), "(store)")
		e.guard(st, p, T, true, x.Pos())
		e.store(st, p, T, e.val(fr, x.Val))
	case *ssa.FieldAddr:
		p := e.val(fr, x.X)
		e.nilCheck(p, x.Pos(), "field "+deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name())
		fr.regs[x] = e.fieldLoc(p, deref(x.X.Type()), x.Field)
	case *ssa.Field:
		sv := e.val(fr, x.X).(*StructV)
		fr.regs[x] = sv.fields[x.Field]
	case *ssa.IndexAddr:
		fr.regs[x] = e.indexAddr(fr, x, st)
	case *ssa.Index:
		idx := e.val(fr, x.Index).(*Term)
		switch a := e.val(fr, x.X).(type) {
		case *ArrayV:
			e.mustNotPanic(c.And(c.Le(c.zero, idx), c.Lt(idx, c.Int(a.n))), "index out of range", x.Pos())
			var ts []*Term
			for _, m := range a.comps {
				ts = append(ts, c.Select(m, idx))
			}
			fr.regs[x] = e.unflatten(ts, a.elem)
			e.typeFacts(st, fr.regs[x], a.elem)
		case *Term: // string
			e.mustNotPanic(c.And(c.Le(c.zero, idx), c.Lt(idx, c.SLen(a))), "string index out of range", x.Pos())
			v := c.SAt(a, idx)
			e.setRange(v, big.NewInt(0), big.NewInt(255))
			fr.regs[x] = v
		default:
			panic(unsupported("Index"))
		}
	case *ssa.Lookup:
		e.lookup(fr, x, st)
	case *ssa.Slice:
		fr.regs[x] = e.slice(fr, x, st)
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len).(*Term)
		cp := e.val(fr, x.Cap).(*Term)
		e.mustNotPanic(c.And(c.Le(c.zero, n), c.Le(n, cp)), "makeslice: len out of range", x.Pos())
		e.assume(c.Le(cp, c.Big(maxLen))) // allocation succeeds only within the address space
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.regs[x] = e.makeSlice(st, et, n, cp)
	case *ssa.MakeMap:
		r := e.alloc(st)
		e.mapInit(st, r, x.Type())
		fr.regs[x] = r
	case *ssa.MapUpdate:
		m := e.val(fr, x.Map).(*Term)
		e.mustNotPanic(c.Ne(m, c.zero), "assignment to entry in nil map", x.Pos())
		e.guardMap(st, m, x.Map.Type(), true, x.Pos())
		e.mapSet(st, m, x.Map.Type(), e.val(fr, x.Key), e.val(fr, x.Value))
	case *ssa.MakeChan:
		r := e.alloc(st)
		sz := e.val(fr, x.Size).(*Term)
		e.mustNotPanic(c.Le(c.zero, sz), "makechan: size out of range", x.Pos())
		e.hwrite(st, "chan#cap", r, sz)
		e.hwrite(st, "g:chan#sent", r, c.zero)
		e.hwrite(st, "g:chan#closed", r, c.zero)
		fr.regs[x] = r
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.val(fr, b))
		}
		fr.regs[x] = f
	case *ssa.MakeInterface:
		v := e.val(fr, x.X)
		fr.regs[x] = e.box(st, v, x.X.Type())
		e.pureIfaceFacts(st, fr.regs[x].(*IfaceV), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		fr.regs[x] = e.val(fr, x.X)
	case *ssa.ChangeType:
		fr.regs[x] = e.retype(e.val(fr, x.X), x.Type())
	case *ssa.Convert:
		fr.regs[x] = e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.Extract:
		fr.regs[x] = e.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Range:
		fr.regs[x] = e.rangeIter(fr, x, st)
	case *ssa.Send:
		e.chanSend(st, e.val(fr, x.Chan).(*Term), e.val(fr, x.X), x.Chan.Type(), x.Pos())
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (e *Exec) retype(v Val, t types.Type) Val {
	if s, ok := v.(*StructV); ok {
		return &StructV{typ: t, fields: s.fields}
	}
	return v
}

func (e *Exec) makeSlice(st *State, et types.Type, n, cp *Term) *SliceV {
	r := e.alloc(st)
	if e.objMode(et) {
		return &SliceV{r, e.c.zero, n, cp}
	}
	for _, cc := range e.comps(et) {
		e.setMemArr(st, r, et, cc, e.c.ConstArr(sInt, e.zeroSort(cc.sort)))
	}
	return &SliceV{r, e.c.zero, n, cp}
}

func (e *Exec) unop(fr *Frame, x *ssa.UnOp, st *State) Val {
	c := e.c
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		T := x.Type()
		if g, ok := x.X.(*ssa.Global); ok && e.inInit && g.Name() == "init$guard" {
			return c.F
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if _, own := e.w.gids[g]; !own {
				if r, ok := e.extGlobal(g.Pkg.Pkg.Path()+"."+g.Name(), T); ok {
					return r
				}
			}
		}
		e.nilCheck(v, x.Pos(), "(load)")
		e.guard(st, v, T, false, x.Pos())
		e.useMem(st, v, x.Pos())
		r := e.load(st, v, T)
		e.typeFacts(st, r, T)
		return r
	case token.NOT:
		return c.Not(v.(*Term))
	case token.SUB:
		return e.wrap(c.Neg(v.(*Term)), x.Type())
	case token.XOR:
		lo, hi, _ := intRange(x.Type())
		if lo.Sign() == 0 {
			return c.Sub(c.Big(hi), v.(*Term))
		}
		return c.Sub(c.Int(-1), v.(*Term))
	case token.ARROW:
		val, ok := e.chanRecv(st, v.(*Term), x.X.Type(), x.Pos())
		if x.CommaOk {
			return TupleV{val, ok}
		}
		return val
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (e *Exec) eqVal(a, b Val, t types.Type) *Term {
	c := e.c
	if sa, ok := a.(*SliceV); ok { // comparison with nil
		sb := b.(*SliceV)
		if sb.base == c.zero {
			return c.Eq(sa.base, c.zero)
		}
		return c.Eq(sb.base, c.zero)
	}
	fa, fb := e.flatten(a, t), e.flatten(b, t)
	var es []*Term
	for i := range fa {
		es = append(es, c.Eq(fa[i], fb[i]))
	}
	return c.And(es...)
}

func (e *Exec) binop(op token.Token, a, b Val, t, rt types.Type, pos token.Pos) Val {
	c := e.c
	switch op {
	case token.EQL:
		return e.eqVal(a, b, t)
	case token.NEQ:
		return c.Not(e.eqVal(a, b, t))
	}
	x, y := a.(*Term), b.(*Term)
	if x.sort == sSeq {
		switch op {
		case token.ADD:
			return c.Cat(x, y)
		case token.LSS:
			return c.App("str.lt", sBool, x, y)
		case token.GTR:
			return c.App("str.lt", sBool, y, x)
		case token.LEQ:
			return c.Not(c.App("str.lt", sBool, y, x))
		case token.GEQ:
			return c.Not(c.App("str.lt", sBool, x, y))
		}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return c.App("float."+op.String(), sBool, x, y)
		}
		return c.App("float."+op.String(), sInt, x, y)
	}
	switch op {
	case token.ADD:
		return e.wrap(c.Add(x, y), rt)
	case token.SUB:
		return e.wrap(c.Sub(x, y), rt)
	case token.MUL:
		return e.wrap(c.Mul(x, y), rt)
	case token.QUO, token.REM:
		e.mustNotPanic(c.Ne(y, c.zero), "division by zero", pos)
		lo, _, _ := intRange(t)
		if lo.Sign() == 0 || (e.nonnegV(x) && e.nonnegV(y)) {
			if op == token.QUO {
				return c.Div(x, y)
			}
			return c.Mod(x, y)
		}
		if y.isInt() && y.val.Sign() > 0 {
			qd := c.Ite(c.Le(c.zero, x), c.Div(x, y), c.Neg(c.Div(c.Neg(x), y)))
			if op == token.QUO {
				return qd
			}
			return c.Sub(x, c.Mul(qd, y))
		}
		return e.opaqueInt("divrem"+op.String(), t, x, y)
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	case token.SHL:
		if y.isInt() && y.val.Cmp(big.NewInt(64)) < 0 {
			return e.wrap(c.Mul(x, c.Big(pow2(uint(y.val.Int64())))), rt)
		}
		if x.isInt() && x.val.Cmp(big.NewInt(1)) == 0 {
			t := c.zero
			for k := uint(64); k > 0; k-- {
				t = c.Ite(c.Eq(y, c.Int(int64(k-1))), e.wrap(c.Big(pow2(k-1)), rt), t)
			}
			return t
		}
		return e.opaqueInt("shl", rt, x, y)
	case token.SHR:
		if y.isInt() && y.val.Cmp(big.NewInt(64)) < 0 {
			return c.Div(x, c.Big(pow2(uint(y.val.Int64()))))
		}
		return e.opaqueInt("shr", rt, x, y)
	case token.AND:
		if x.sort == sBool {
			return c.And(x, y)
		}
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if p[1].isInt() {
				m := new(big.Int).Add(p[1].val, big.NewInt(1))
				if m.Sign() > 0 && new(big.Int).And(m, p[1].val).Sign() == 0 {
					return c.Mod(p[0], c.Big(m))
				}
			}
		}
		if x.isInt() && y.isInt() {
			return c.Big(new(big.Int).And(x.val, y.val))
		}
		return e.opaqueInt("and", rt, x, y)
	case token.OR:
		if x.sort == sBool {
			return c.Or(x, y)
		}
		if x.isInt() && y.isInt() {
			return c.Big(new(big.Int).Or(x.val, y.val))
		}
		// disjoint bit ranges: x = hi*2^k, y < 2^k
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if r, ok := e.ival(p[1]); ok && r.lo.Sign() >= 0 {
				k := uint(r.hi.BitLen())
				if p[0].op == "+" && p[0].val.Sign() == 0 && len(p[0].args) == 1 && new(big.Int).Mod(p[0].coefs[0], pow2(k)).Sign() == 0 {
					return c.Add(p[0], p[1])
				}
				allDiv := p[0].op == "+"
				if allDiv {
					m := pow2(k)
					if new(big.Int).Mod(p[0].val, m).Sign() != 0 {
						allDiv = false
					}
					for _, co := range p[0].coefs {
						if new(big.Int).Mod(co, m).Sign() != 0 {
							allDiv = false
						}
					}
				}
				if allDiv {
					return c.Add(p[0], p[1])
				}
			}
		}
		return e.opaqueInt("or", rt, x, y)
	case token.XOR, token.AND_NOT:
		if x.isInt() && y.isInt() {
			if op == token.XOR {
				return c.Big(new(big.Int).Xor(x.val, y.val))
			}
			return c.Big(new(big.Int).AndNot(x.val, y.val))
		}
		return e.opaqueInt("xor"+op.String(), rt, x, y)
	}
	panic(unsupported("binop " + op.String()))
}

func (e *Exec) nonnegV(x *Term) bool {
	if r, ok := e.ival(x); ok && r.lo.Sign() >= 0 {
		return true
	}
	return e.valid(e.c.Le(e.c.zero, x))
}

func (e *Exec) opaqueInt(name string, t types.Type, args ...*Term) *Term {
	v := e.c.App("op."+name+"."+tkey(t), sInt, args...)
	if lo, hi, ok := intRange(t); ok {
		e.setRange(v, lo, hi)
	}
	return v
}

func (e *Exec) indexAddr(fr *Frame, x *ssa.IndexAddr, st *State) Val {
	c := e.c
	idx := e.val(fr, x.Index).(*Term)
	switch xt := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.val(fr, x.X).(*SliceV)
		e.mustNotPanic(c.And(c.Le(c.zero, idx), c.Lt(idx, s.len)), "index out of range", x.Pos())
		if e.objMode(xt.Elem()) {
			return e.elemRef(s.base, c.Add(s.off, idx), xt.Elem())
		}
		return &AddrV{key: memKey(xt.Elem()), ref: s.base, idx: c.Add(s.off, idx), typ: xt.Elem()}
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		p := e.val(fr, x.X)
		e.mustNotPanic(c.And(c.Le(c.zero, idx), c.Lt(idx, c.Int(at.Len()))), "index out of range", x.Pos())
		pt, ok := p.(*Term)
		if !ok {
			panic(unsupported("array address"))
		}
		if e.objMode(at.Elem()) {
			return e.elemRef(pt, idx, at.Elem())
		}
		return &AddrV{key: memKey(at.Elem()), ref: pt, idx: idx, typ: at.Elem()}
	}
	panic(unsupported("IndexAddr"))
}

func (e *Exec) slice(fr *Frame, x *ssa.Slice, st *State) Val {
	c := e.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.val(fr, v).(*Term)
	}
	switch v := e.val(fr, x.X).(type) {
	case *SliceV:
		lo := get(x.Low, c.zero)
		hi := get(x.High, v.len)
		mx := get(x.Max, v.cap)
		e.mustNotPanic(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, v.cap)), "slice bounds out of range", x.Pos())
		return &SliceV{v.base, c.Add(v.off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}
	case *Term:
		if v.sort == sSeq {
			lo := get(x.Low, c.zero)
			hi := get(x.High, c.SLen(v))
			e.mustNotPanic(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, c.SLen(v))), "slice bounds out of range", x.Pos())
			return c.SSub(v, lo, c.Sub(hi, lo))
		}
		at := deref(x.X.Type()).Underlying().(*types.Array)
		n := c.Int(at.Len())
		lo := get(x.Low, c.zero)
		hi := get(x.High, n)
		mx := get(x.Max, n)
		e.mustNotPanic(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "slice bounds out of range", x.Pos())
		return &SliceV{v, lo, c.Sub(hi, lo), c.Sub(mx, lo)}
	}
	panic(unsupported("Slice"))
}

func (e *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return e.wrap(v.(*Term), to)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return e.opaqueInt("f2i", to, v.(*Term))
		case tb.Info()&types.IsFloat != 0:
			return c.App("tofloat", sInt, v.(*Term))
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return c.App("runestr", sSeq, v.(*Term))
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.makeBytes(st, v.(*Term))
			}
		}
	}
	if s, ok := v.(*SliceV); ok {
		if tok && tb.Info()&types.IsString != 0 {
			if el, ok := fu.(*types.Slice).Elem().Underlying().(*types.Basic); ok && el.Kind() == types.Uint8 {
				e.useSlice(st, s, pos)
				return e.content(st, s)
			}
		}
		if _, ok := tu.(*types.Slice); ok {
			return v
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("convert " + tkey(from) + " to " + tkey(to)))
}

// ---- maps ----

func (e *Exec) mapKeySort(t types.Type) *Sort {
	k := t.Underlying().(*types.Map).Key()
	cs := e.comps(k)
	if len(cs) == 1 {
		return cs[0].sort
	}
	return sInt
}
func (e *Exec) mapKey(k Val, t types.Type) *Term {
	kt := t.Underlying().(*types.Map).Key()
	ts := e.flatten(k, kt)
	if len(ts) == 1 {
		return ts[0]
	}
	return e.boxPay(ts, kt)
}
func mapKeyName(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "map:" + tkey(m.Key()) + ":" + tkey(m.Elem())
}
func (e *Exec) mapInit(st *State, r *Term, t types.Type) {
	c := e.c
	ks := e.mapKeySort(t)
	n := mapKeyName(t)
	e.hwrite(st, n+"#dom", r, c.ConstArr(ks, c.F))
	for _, cc := range e.comps(t.Underlying().(*types.Map).Elem()) {
		e.hwrite(st, n+cc.path, r, c.ConstArr(ks, e.zeroSort(cc.sort)))
	}
	e.hwrite(st, n+"#len", r, c.zero)
}
func (e *Exec) mapDom(st *State, m *Term, t types.Type) *Term {
	return e.hread(st, mapKeyName(t)+"#dom", e.c.arr(e.mapKeySort(t), sBool), m)
}
func (e *Exec) mapLen(st *State, m *Term, t types.Type) *Term {
	v := e.hread(st, mapKeyName(t)+"#len", sInt, m)
	return v
}
func (e *Exec) mapVals(st *State, m *Term, t types.Type) []*Term {
	var out []*Term
	for _, cc := range e.comps(t.Underlying().(*types.Map).Elem()) {
		out = append(out, e.hread(st, mapKeyName(t)+cc.path, e.c.arr(e.mapKeySort(t), cc.sort), m))
	}
	return out
}
func (e *Exec) mapGet(st *State, m *Term, t types.Type, k Val) (Val, *Term) {
	c := e.c
	key := e.mapKey(k, t)
	has := c.And(c.Ne(m, c.zero), c.Select(e.mapDom(st, m, t), key))
	var ts []*Term
	for _, a := range e.mapVals(st, m, t) {
		ts = append(ts, c.Select(a, key))
	}
	return e.unflatten(ts, t.Underlying().(*types.Map).Elem()), has
}
func (e *Exec) mapSet(st *State, m *Term, t types.Type, k, v Val) {
	c := e.c
	key := e.mapKey(k, t)
	n := mapKeyName(t)
	dom := e.mapDom(st, m, t)
	e.hwrite(st, n+"#len", m, c.Add(e.mapLen(st, m, t), c.Ite(c.Select(dom, key), c.zero, c.one)))
	e.hwrite(st, n+"#dom", m, c.Store(dom, key, c.T))
	vt := t.Underlying().(*types.Map).Elem()
	ts := e.flatten(v, vt)
	for i, a := range e.mapVals(st, m, t) {
		e.hwrite(st, n+e.comps(vt)[i].path, m, c.Store(a, key, ts[i]))
	}
}
func (e *Exec) mapDelete(st *State, m *Term, t types.Type, k Val) {
	c := e.c
	key := e.mapKey(k, t)
	n := mapKeyName(t)
	dom := e.mapDom(st, m, t)
	e.hwrite(st, n+"#len", m, c.Sub(e.mapLen(st, m, t), c.Ite(c.Select(dom, key), c.one, c.zero)))
	e.hwrite(st, n+"#dom", m, c.Store(dom, key, c.F))
}
func (e *Exec) lookup(fr *Frame, x *ssa.Lookup, st *State) {
	c := e.c
	if s, ok := e.val(fr, x.X).(*Term); ok && s.sort == sSeq {
		idx := e.val(fr, x.Index).(*Term)
		e.mustNotPanic(c.And(c.Le(c.zero, idx), c.Lt(idx, c.SLen(s))), "string index out of range", x.Pos())
		v := c.SAt(s, idx)
		e.setRange(v, big.NewInt(0), big.NewInt(255))
		fr.regs[x] = v
		return
	}
	m := e.val(fr, x.X).(*Term)
	mt := x.X.Type()
	e.guardMap(st, m, mt, false, x.Pos())
	v, has := e.mapGet(st, m, mt, e.val(fr, x.Index))
	vt := mt.Underlying().(*types.Map).Elem()
	// absent keys give the zero value
	zv := e.flatten(e.zero(vt), vt)
	ts := e.flatten(v, vt)
	for i := range ts {
		ts[i] = c.Ite(has, ts[i], zv[i])
	}
	v = e.unflatten(ts, vt)
	e.typeFacts(st, v, vt)
	if x.CommaOk {
		fr.regs[x] = TupleV{v, has}
	} else {
		fr.regs[x] = v
	}
}

// ---- iteration over maps and strings ----

func (e *Exec) rangeIter(fr *Frame, x *ssa.Range, st *State) Val {
	e.nfunc++
	it := &IterV{id: e.nfunc, typ: x.X.Type()}
	v := e.val(fr, x.X).(*Term)
	if v.sort == sSeq {
		it.str = v
		it.vkey = fmt.Sprintf("ghost:iter%d", it.id)
		e.hwrite(st, it.vkey, e.c.zero, e.c.zero)
		return it
	}
	it.m = v
	it.vkey = "ghost:iterseen:" + e.mapKeySort(x.X.Type()).name + fmt.Sprint(it.id)
	e.hwrite(st, it.vkey, e.c.zero, e.c.ConstArr(e.mapKeySort(x.X.Type()), e.c.F))
	return it
}

func (e *Exec) next(fr *Frame, x *ssa.Next, st *State, k func(*Frame, *State)) {
	c := e.c
	it := e.val(fr, x.Iter).(*IterV)
	if it.str != nil {
		pos := e.hread(st, it.vkey, sInt, c.zero)
		cond := c.Lt(pos, c.SLen(it.str))
		e.branch(cond, func() {
			f2, s2 := fr.clone(), st.clone()
			n := c.Fresh("runelen", sInt)
			e.assume(c.And(c.Le(c.one, n), c.Le(n, c.Int(4)), c.Le(c.Add(pos, n), c.SLen(it.str))))
			r := c.Fresh("rune", sInt)
			e.setRange(r, big.NewInt(0), big.NewInt(0x10ffff))
			b0 := c.SAt(it.str, pos)
			e.setRange(b0, big.NewInt(0), big.NewInt(255))
			e.assume(c.Imp(c.Lt(b0, c.Int(128)), c.And(c.Eq(r, b0), c.Eq(n, c.one))))
			e.assume(c.Imp(c.Le(c.Int(128), b0), c.Le(c.Int(128), r)))
			e.hwrite(s2, it.vkey, c.zero, c.Add(pos, n))
			f2.regs[x] = TupleV{c.T, pos, r}
			k(f2, s2)
		}, func() {
			f2 := fr.clone()
			f2.regs[x] = TupleV{c.F, c.zero, c.zero}
			k(f2, st.clone())
		})
		return
	}
	mt := it.typ.Underlying().(*types.Map)
	ks := e.mapKeySort(it.typ)
	seen := e.hread(st, it.vkey, c.arr(ks, sBool), c.zero)
	dom := e.mapDom(st, it.m, it.typ)
	e.guardMap(st, it.m, it.typ, false, x.Pos())
	// another element
	e.push()
	{
		f2, s2 := fr.clone(), st.clone()
		kv := e.freshVal(s2, mt.Key(), "key")
		key := e.mapKey(kv, it.typ)
		v, _ := e.mapGet(s2, it.m, it.typ, kv)
		e.assume(c.And(c.Ne(it.m, c.zero), c.Select(dom, key), c.Not(c.Select(seen, key))))
		e.typeFacts(s2, v, mt.Elem())
		e.hwrite(s2, it.vkey, c.zero, c.Store(seen, key, c.T))
		f2.regs[x] = TupleV{c.T, kv, v}
		if !e.infeasible() {
			k(f2, s2)
		}
	}
	e.pop()
	e.push()
	{
		f2, s2 := fr.clone(), st.clone()
		b := c.BVar("k", ks)
		e.assume(c.Imp(c.Ne(it.m, c.zero), c.Forall([]*Term{b}, c.Imp(c.Select(dom, b), c.Select(seen, b)), []*Term{c.Select(dom, b)})))
		f2.regs[x] = TupleV{c.F, e.zero(mt.Key()), e.zero(mt.Elem())}
		if !e.infeasible() {
			k(f2, s2)
		}
	}
	e.pop()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
