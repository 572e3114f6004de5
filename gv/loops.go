package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var dumpN int

type loopCtx struct {
	blocks  map[*ssa.BasicBlock]bool
	probing bool
	onBack  func(fr *Frame, st *State)
}

// headVar: a value that changes from iteration to iteration, as a fresh
// variable t at the loop head, with its value in any other state given by get.
type headVar struct {
	t    *Term
	name string
	typ  types.Type
	role string
	key  string
	phi  *ssa.Phi
	comp int
	ref  *Term // heap variable: location; nil with key set: the whole array
	e0   *Term // value on entry
}

type modInfo struct {
	all  bool
	refs []*Term
	sort *Sort // element sort
}

func (e *Exec) atLoop(fr *Frame, b *ssa.BasicBlock, lp *loopInfo, st *State, k kont) {
	if e.root.opts["nounroll"] == "" && fr.unroll[b] < 70 {
		if cv := e.headCond(fr, b, st); cv != nil && (cv.isTrue() || cv.isFalse()) && e.progress(fr, b) {
			fr.unroll[b]++
			e.instrs(fr, b, 0, st, k)
			return
		}
	}
	if n, _ := strconv.Atoi(e.root.opts["unroll"]); n > 0 {
		fr.unroll[b]++
		if fr.unroll[b] > n {
			e.oblige("loop unrolled completely", nil, e.c.F, b.Instrs[0].Pos())
			return
		}
		e.instrs(fr, b, 0, st, k)
		return
	}
	e.cutLoop(fr, b, lp, st, k)
}

// progress: the loop's counters are not where they were at an earlier
// iteration on this path (unrolling would not end).
func (e *Exec) progress(fr *Frame, b *ssa.BasicBlock) bool {
	sig := ""
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := fr.regs[p].(*Term); ok && t.isInt() {
			sig += t.val.String() + ","
		}
		if v, ok := fr.regs[p].(*SliceV); ok && v.len.isInt() {
			sig += "l" + v.len.val.String() + ","
		}
	}
	if sig == "" {
		return true
	}
	sig = ";" + sig + ";"
	if strings.Contains(fr.seen[b], sig) {
		return false
	}
	fr.seen[b] += sig
	return true
}

// headCond evaluates the header's condition if the header is side-effect free.
func (e *Exec) headCond(fr *Frame, b *ssa.BasicBlock, st *State) (res *Term) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op.String() == "<-" {
				return nil
			}
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return nil
			}
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				return nil
			}
		default:
			return nil
		}
	}
	f2, s2 := fr.clone(), st.clone()
	e.push()
	e.suppress++
	defer func() { e.suppress--; e.pop() }()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			f2.regs[x] = e.val(f2, x.Call.Args[0]).(*SliceV).len
		default:
			e.simple(f2, in, s2)
		}
	}
	t, ok := e.val(f2, iff.Cond).(*Term)
	if !ok {
		return nil
	}
	return t
}

func (e *Exec) isOld(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "var" {
			if t.id <= mark || strings.HasPrefix(t.name, "H!") || strings.HasPrefix(t.name, "lit!") || strings.HasPrefix(t.name, "float!") {
				return true
			}
			return false
		}
		if t.op == "bvar" {
			return true
		}
		for _, a := range t.args {
			if !w(a) {
				return false
			}
		}
		return true
	}
	return w(t)
}

type loopRun struct {
	fr    *Frame
	st    *State
	vars  []*headVar
	mark  int
	conds []*Term
	backs []map[*Term]*Term
}

func hasElem(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// mkHead builds the state at an arbitrary iteration.
func (e *Exec) mkHead(fr *Frame, b *ssa.BasicBlock, entry *State, mod map[string]*modInfo) *loopRun {
	lr := &loopRun{fr: fr.clone(), st: entry.clone()}
	lr.mark = e.c.n
	e.newFrontier(lr.st)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		old := fr.regs[p]
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		if _, isF := old.(*FuncV); isF {
			continue
		}
		v := e.freshVal(lr.st, p.Type(), nm)
		lr.fr.regs[p] = v
		if t, ok := v.(*Term); ok && nm == "rangeindex" && t.sort == sInt {
			// compiler-made: runs from -1 to below the length of what is ranged over
			e.setRange(t, big.NewInt(-1), maxLen)
		}
		ov := e.flatten(old, p.Type())
		cs := e.comps(p.Type())
		for i, t := range e.flatten(v, p.Type()) {
			lr.vars = append(lr.vars, &headVar{t: t, name: nm + cs[i].path, typ: p.Type(), role: cs[i].role, phi: p, comp: i, e0: ov[i]})
		}
	}
	for _, key := range sortedKeys(mod) {
		m := mod[key]
		if m.all {
			a := e.freshArr(lr.st, "L_"+key, e.c.arr(sInt, m.sort))
			lr.st.heap[key] = a
			if key == "g:released" || key == "g:given" {
				// memory allocated later was never put back
				r := e.c.BVar("r", sInt)
				rd := e.c.Select(a, r)
				e.assume(e.c.Forall([]*Term{r}, e.c.Imp(e.c.Le(lr.st.front, r), e.c.Not(rd)), []*Term{rd}))
			}
			lr.vars = append(lr.vars, &headVar{t: a, name: key, key: key, e0: e.hget(entry, key, m.sort)})
			continue
		}
		for _, r := range m.refs {
			a := e.freshArr(lr.st, "L_"+key, m.sort)
			v0 := e.hread(entry, key, m.sort, r)
			e.hwrite(lr.st, key, r, a)
			role := ""
			for _, s := range []string{"base", "off", "len", "cap", "tag", "pay"} {
				if strings.HasSuffix(key, "#"+s) {
					role = s
				}
			}
			if role == "len" || role == "off" || role == "cap" {
				if a.sort == sInt {
					e.setRange(a, bigZero, maxLen)
				}
			}
			lr.vars = append(lr.vars, &headVar{t: a, name: key, key: key, ref: r, role: role, e0: v0})
		}
	}
	return lr
}

func (lr *loopRun) subst(e *Exec, fr *Frame, st *State) map[*Term]*Term {
	m := map[*Term]*Term{lr.st.front: e.frontTerm(st)}
	for _, v := range lr.vars {
		switch {
		case v.phi != nil:
			m[v.t] = e.flatten(fr.regs[v.phi], v.phi.Type())[v.comp]
		case v.ref != nil:
			m[v.t] = e.hread(st, v.key, v.t.sort, v.ref)
		default:
			m[v.t] = e.hget(st, v.key, v.t.sort.elem)
		}
	}
	return m
}

// probe runs the loop body once from the head, calling back at each back edge.
func (e *Exec) probe(lr *loopRun, b *ssa.BasicBlock, lp *loopInfo, k kont, assume []*Term, onBack func(fr *Frame, st *State)) {
	e.push()
	e.suppress++
	pl := len(e.pathLog)
	for _, t := range assume {
		e.assume(t)
	}
	f, s := lr.fr.clone(), lr.st.clone()
	f.loops[b] = &loopCtx{blocks: lp.blocks, probing: true, onBack: onBack}
	e.instrs(f, b, 0, s, k)
	e.pathLog = e.pathLog[:pl]
	e.suppress--
	e.pop()
}

func (e *Exec) cutLoop(fr *Frame, b *ssa.BasicBlock, lp *loopInfo, st *State, k kont) {
	t0 := time.Now()
	c := e.c
	e.push()
	defer e.pop()
	mod := map[string]*modInfo{}
	var lr *loopRun
	for iter := 0; ; iter++ {
		if iter > 8 {
			if os.Getenv("GV_LOOP") != "" {
				for k, m := range mod {
					fmt.Fprintln(os.Stderr, "mod", k, m.all, m.refs)
				}
			}
			panic(unsupported("loop discovery does not converge"))
		}
		lr = e.mkHead(fr, b, st, mod)
		changed := false
		e.probe(lr, b, lp, k, nil, func(f3 *Frame, s3 *State) {
			if e.discover(lr.st, lr.mark, s3, mod) {
				changed = true
			}
			if s3.gen != lr.st.gen {
				panic(unsupported("loop body with unbounded effects"))
			}
		})
		// keys whose head value did not depend on mod may now be complete
		for key, m := range mod {
			if !m.all && len(m.refs) == 0 {
				delete(mod, key)
			}
		}
		if !changed {
			break
		}
	}
	// collect conditions and back-edge values
	var conds []*Term
	e.push()
	{
		e.suppress++
		f, s := lr.fr.clone(), lr.st.clone()
		f.loops[b] = &loopCtx{blocks: lp.blocks, probing: true, onBack: func(f3 *Frame, s3 *State) {
			lr.backs = append(lr.backs, lr.subst(e, f3, s3))
		}}
		e.logConds = append(e.logConds, &conds)
		pl := len(e.pathLog)
		e.instrs(f, b, 0, s, k)
		e.pathLog = e.pathLog[:pl]
		e.logConds = e.logConds[:len(e.logConds)-1]
		e.suppress--
	}
	e.pop()
	lr.conds = conds
	cands, hinted := e.candidates(fr, st, lr)
	// candidates must hold on entry
	sub0 := map[*Term]*Term{}
	for _, v := range lr.vars {
		sub0[v.t] = v.e0
		sub0[lr.st.front] = e.frontTerm(st)
	}
	var live []*Term
	e.push()
	for _, u := range e.loopUses(lr) {
		e.mention(c.Subst(u, sub0))
	}
	var retry []*Term
	bad := map[*Term]bool{}
	for _, t := range cands {
		if !e.validTO(c.Subst(t, sub0), 800) {
			bad[t] = true
			if hinted[t] {
				retry = append(retry, t)
			}
		}
	}
	for _, t := range e.external(retry, sub0) {
		delete(bad, t)
	}
	for _, t := range cands {
		if !bad[t] {
			live = append(live, t)
		} else if os.Getenv("GV_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "  [entry] drop %s\n", t)
		}
	}
	e.pop()
	uses := e.loopUses(lr)
	// and be preserved by every iteration
	rounds := 0
	for {
		rounds++
		if rounds > 12 {
			live = nil
			break
		}
		drop := map[*Term]bool{}
		as := append([]*Term{}, live...)
		for _, u := range uses {
			as = append(as, c.App("mention!"+u.sort.name, sBool, u))
		}
		e.probe(lr, b, lp, k, as, func(f3 *Frame, s3 *State) {
			m := lr.subst(e, f3, s3)
			e.push()
			for _, u := range uses {
				e.mention(c.Subst(u, m))
			}
			var retry []*Term
			bad := map[*Term]bool{}
			for _, t := range live {
				if drop[t] {
					continue
				}
				ms := 1200
				if hinted[t] {
					ms = 800
				}
				if !e.validTO(c.Subst(t, m), ms) {
					bad[t] = true
					if hinted[t] {
						retry = append(retry, t)
					}
				}
			}
			for _, t := range e.external(retry, m) {
				delete(bad, t)
			}
			for _, t := range live {
				if bad[t] {
					drop[t] = true
					if os.Getenv("GV_LOOP") != "" {
						fmt.Fprintf(os.Stderr, "  [round %d] drop %s\n", rounds, t)
						if os.Getenv("GV_LOOP") == "2" {
							dumpN++
							os.WriteFile(fmt.Sprintf("/tmp/q/%d.smt2", dumpN), []byte(e.s.Script(c.Subst(t, m), false)), 0644)
							fmt.Fprintf(os.Stderr, "     query %d\n", dumpN)
							fmt.Fprintf(os.Stderr, "     at back: %s\n", c.Subst(t, m))
						}
					}
				}
			}
			e.pop()
		})
		if len(drop) == 0 {
			break
		}
		var nl []*Term
		for _, t := range live {
			if !drop[t] {
				nl = append(nl, t)
			}
		}
		live = nl
	}
	if os.Getenv("GV_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "loop %s in %s: %d candidates, %d invariants, %d rounds, %.1fs\n", e.w.pos(b.Instrs[0].Pos()), fname(fr.fn), len(cands), len(live), rounds, time.Since(t0).Seconds())
		for _, t := range live {
			fmt.Fprintf(os.Stderr, "  inv %s\n", t)
		}
	}
	if e.suppress == 0 {
		e.invs += len(live)
	}
	// the arbitrary iteration, with obligations
	for _, t := range live {
		e.assume(t)
	}
	for _, u := range uses {
		e.mention(u)
	}
	var variants []*Term
	if e.root.terminates && e.interested(e.root.termTags) && e.suppress == 0 {
		variants = e.variants(lr)
	}
	ok := map[*Term]bool{}
	for _, v := range variants {
		ok[v] = true
	}
	hasBack := false
	f, s := lr.fr.clone(), lr.st.clone()
	f.loops[b] = &loopCtx{blocks: lp.blocks, onBack: func(f3 *Frame, s3 *State) {
		hasBack = true
		if len(variants) > 0 {
			m := lr.subst(e, f3, s3)
			for _, v := range variants {
				if ok[v] && !(e.validTO(c.Lt(c.Subst(v, m), v), 2500) && e.validTO(c.Le(c.Int(-1), v), 2500)) {
					ok[v] = false
				}
			}
		}
	}}
	e.instrs(f, b, 0, s, k)
	if e.root.terminates && e.interested(e.root.termTags) && e.suppress == 0 && hasBack {
		found := false
		for _, v := range variants {
			if ok[v] {
				found = true
			}
		}
		if !found && e.mapRange(lp, mod) {
			found = true
		}
		o := &Obl{Func: e.rootName + e.inst, Name: "loop terminates", Tags: e.root.termTags, Pos: e.w.pos(b.Instrs[0].Pos()), OK: found, By: "variant"}
		e.obls = append(e.obls, o)
	}
}

// discover adds to mod what differs between head and the state s3 reached from it.
func (e *Exec) discover(head *State, mark int, s3 *State, mod map[string]*modInfo) (changed bool) {
	for key, t := range s3.heap {
		h, ok := head.heap[key]
		if !ok && strings.HasPrefix(key, "ghost:iterseen:") {
			continue // an iteration begun inside the body
		}
		if !ok {
			h = e.hget(head, key, t.sort.elem)
		}
		if t == h {
			continue
		}
		m := mod[key]
		if m == nil {
			m = &modInfo{sort: t.sort.elem}
			mod[key] = m
		}
		if m.all {
			continue
		}
		x := t
		var refs []*Term
		for x.op == "store" && x != h {
			refs = append(refs, x.args[1])
			x = x.args[0]
		}
		// strip what the head itself stored
		hx := h
		for hx.op == "store" && x != hx {
			hx = hx.args[0]
		}
		all := x != hx
		for _, r := range refs {
			if ep := e.c.frontierOf(r); ep >= head.epoch {
				// contents of objects allocated by earlier iterations
				// matter only to contracts that say so
				if e.root.opts["loopalloc"] != "" && !strings.HasPrefix(key, "ghost:") {
					all = true
				}
				continue
			}
			if !e.isOld(r, mark) {
				all = true
				continue
			}
			if !hasElem(m.refs, r) {
				m.refs = append(m.refs, r)
				changed = true
			}
		}
		if all {
			m.all = true
			m.refs = nil
			changed = true
		}
	}
	return
}

// anyTime is st after any number of runs of f, which may have been called
// before by other goroutines.
func (e *Exec) anyTime(st *State, f func(st *State, k kont)) *State {
	mod := map[string]*modInfo{}
	for iter := 0; ; iter++ {
		if iter > 8 {
			panic(unsupported("callback whose effects do not converge"))
		}
		head := st.clone()
		mark := e.c.n
		e.newFrontier(head)
		for _, key := range sortedKeys(mod) {
			m := mod[key]
			if m.all {
				head.heap[key] = e.freshArr(head, "C_"+key, e.c.arr(sInt, m.sort))
				continue
			}
			for _, r := range m.refs {
				e.hwrite(head, key, r, e.freshArr(head, "C_"+key, m.sort))
			}
		}
		changed := false
		e.push()
		e.suppress++
		pl := len(e.pathLog)
		saveEx := e.exitK
		f(head.clone(), func(s3 *State, _ []Val) {
			// f runs on a goroutine of its own, and has ended
			if h, ok := head.heap["g:held"]; ok {
				s3.heap["g:held"] = h
			} else {
				delete(s3.heap, "g:held")
			}
			if e.discover(head, mark, s3, mod) {
				changed = true
			}
			if s3.gen != head.gen {
				panic(unsupported("callback with unbounded effects"))
			}
		})
		e.exitK = saveEx
		e.pathLog = e.pathLog[:pl]
		e.suppress--
		e.pop()
		for key, m := range mod {
			if !m.all && len(m.refs) == 0 {
				delete(mod, key)
			}
		}
		if !changed {
			return head
		}
	}
}

// mapRange: the loop iterates over a map (or string) that it does not change.
func (e *Exec) mapRange(lp *loopInfo, mod map[string]*modInfo) bool {
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if n.IsString {
					return true
				}
				t := n.Iter.(*ssa.Range).X.Type()
				if mod[mapKeyName(t)+"#dom"] == nil {
					return true
				}
			}
		}
	}
	return false
}

func (e *Exec) mention(t *Term) {
	e.assume(e.c.App("mention!"+t.sort.name, sBool, t))
}

func (e *Exec) validTO(t *Term, ms int) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return e.infeasible()
	}
	if e.known(t) {
		return true
	}
	return e.s.Valid(t, ms)
}

// variants: quantities bounded below by the loop's own conditions.
func (e *Exec) variants(lr *loopRun) []*Term {
	var out []*Term
	for _, cd := range lr.conds {
		for _, t := range []*Term{cd, e.c.Not(cd)} {
			if t.op == "<=" {
				l := e.c.Sub(t.args[1], t.args[0])
				if e.usesHead(l, lr) && !hasElem(out, l) {
					out = append(out, l)
				}
			}
			if t.op == "=" && t.args[0].sort == sInt {
				for _, l := range []*Term{e.c.Sub(t.args[1], t.args[0]), e.c.Sub(t.args[0], t.args[1])} {
					if e.usesHead(l, lr) && !hasElem(out, l) {
						out = append(out, l)
					}
				}
			}
		}
	}
	// the length of a string that changes
	for _, v := range lr.vars {
		if v.t.sort == sSeq {
			if l := e.c.SLen(v.t); !hasElem(out, l) {
				out = append(out, l)
			}
		}
	}
	return out
}

func (e *Exec) usesHead(t *Term, lr *loopRun) bool {
	for _, v := range lr.vars {
		if containsTerm(t, v.t) {
			return true
		}
	}
	return false
}

// overHead: t only depends on head variables and on things fixed before the loop.
func (e *Exec) overHead(t *Term, lr *loopRun) bool {
	m := map[*Term]*Term{}
	for _, v := range lr.vars {
		if v.t.sort.kind == 'a' {
			m[v.t] = e.c.Var("H!tmp"+v.t.sort.name, v.t.sort)
		} else if v.t.sort == sInt {
			m[v.t] = e.c.zero
		} else if v.t.sort == sBool {
			m[v.t] = e.c.T
		} else {
			m[v.t] = e.c.Empty()
		}
	}
	return e.isOld(e.c.Subst(t, m), lr.mark)
}

func (e *Exec) candidates(fr *Frame, entry *State, lr *loopRun) ([]*Term, map[*Term]bool) {
	c := e.c
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.isTrue() || t.isFalse() || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	front := e.frontTerm(entry)
	var ints, idxs []*headVar
	for _, v := range lr.vars {
		v0 := v.e0
		switch v.t.sort.kind {
		case 'i':
			add(c.Eq(v.t, v0))
			if v.role == "base" || v.role == "pay" {
				add(c.Or(c.Eq(v.t, v0), c.Le(front, v.t)))
				add(c.Le(front, v.t))
				if v.phi != nil && v.role == "base" {
					add(c.Lt(v.t, lr.st.front))
				}
				add(c.Le(e.frontTerm(e.pre), v.t))
				add(c.Or(c.Eq(v.t, c.zero), c.Le(e.frontTerm(e.pre), v.t)))
				add(c.Ne(v.t, c.zero))
				continue
			}
			if v.role == "tag" {
				add(c.Ne(v.t, c.zero))
				continue
			}
			isPtr := false
			if v.typ != nil {
				switch v.typ.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
					isPtr = true
				}
			}
			if isPtr {
				add(c.Ne(v.t, c.zero))
				add(c.Or(c.Eq(v.t, v0), c.Le(front, v.t)))
				continue
			}
			add(c.Le(v0, v.t))
			add(c.Le(v.t, v0))
			ints = append(ints, v)
			if v.role != "cap" {
				idxs = append(idxs, v)
			}
		case 'b':
			add(c.Eq(v.t, v0))
			add(v.t)
			add(c.Not(v.t))
		case 's':
			add(c.Eq(v.t, v0))
		case 'a':
			add(c.Eq(v.t, v0))
		}
	}
	// bounds from the conditions met in the body
	for _, cd := range lr.conds {
		if cd.op == "<=" {
			l := c.Sub(cd.args[1], cd.args[0])
			if e.usesHead(l, lr) && e.overHead(l, lr) {
				add(c.Le(c.zero, l))
				add(c.Le(c.Int(-1), l))
				add(c.Le(l, c.zero))
			}
		}
	}
	// constant steps
	step := func(v *headVar) *big.Int {
		var d *big.Int
		for _, m := range lr.backs {
			x := c.Sub(m[v.t], v.t)
			if !x.isInt() || (d != nil && d.Cmp(x.val) != 0) {
				return nil
			}
			d = x.val
		}
		return d
	}
	for i, v := range ints {
		for _, w := range ints[i+1:] {
			add(c.Eq(c.Sub(v.t, w.t), c.Sub(v.e0, w.e0)))
			add(c.Eq(c.Add(v.t, w.t), c.Add(v.e0, w.e0)))
			dv, dw := step(v), step(w)
			if dv != nil && dw != nil && dv.Sign() != 0 && dw.Sign() != 0 {
				add(c.Eq(c.Mul(c.Big(dw), c.Sub(v.t, v.e0)), c.Mul(c.Big(dv), c.Sub(w.t, w.e0))))
			}
		}
	}
	// searches: what was found out about the elements seen so far
	for _, v := range ints {
		d := step(v)
		if v.phi == nil || d == nil || d.CmpAbs(big.NewInt(1)) != 0 {
			continue
		}
		j := c.BVar("j", sInt)
		rng := c.And(c.Le(v.e0, j), c.Lt(j, v.t))
		if d.Sign() < 0 {
			rng = c.And(c.Lt(v.t, j), c.Le(j, v.e0))
		}
		for _, cd := range lr.conds {
			p := c.Subst(cd, map[*Term]*Term{v.t: j})
			if p == cd || cd.op == "<=" || !e.overHead(cd, lr) {
				continue
			}
			add(c.Forall([]*Term{j}, c.Imp(rng, p)))
			add(c.Forall([]*Term{j}, c.Imp(rng, c.Not(p))))
		}
	}
	// array regions
	for _, v := range lr.vars {
		if v.t.sort.kind != 'a' || v.t.sort.key != sInt || v.t.sort.elem.kind == 'a' || v.ref == nil {
			continue
		}
		for _, m := range lr.backs {
			x := m[v.t]
			for x != v.t && x.op == "store" {
				ix, val := x.args[1], x.args[2]
				if e.overHead(ix, lr) && e.usesHead(ix, lr) {
					sub0 := map[*Term]*Term{}
					for _, h := range lr.vars {
						sub0[h.t] = h.e0
					}
					lo := c.Subst(ix, sub0)
					j := c.BVar("j", sInt)
					rd := c.Select(v.t, j)
					add(c.Forall([]*Term{j}, c.Or(c.And(c.Le(lo, j), c.Lt(j, ix)), c.Eq(rd, c.Select(v.e0, j))), []*Term{rd}))
					// shifted by one: range loops index with i+1
					if e.overHead(val, lr) && !e.usesHead(val, lr) {
						add(c.Forall([]*Term{j}, c.Imp(c.And(c.Le(lo, j), c.Lt(j, ix)), c.Eq(rd, val)), []*Term{rd}))
					}
				}
				x = x.args[0]
			}
		}
	}
	// whole arrays: memory allocated before the function is unchanged
	for _, v := range lr.vars {
		if v.ref == nil && v.key != "" {
			r := c.BVar("r", sInt)
			rd := c.Select(v.t, r)
			add(c.Forall([]*Term{r}, c.Imp(c.Lt(c.App("root", sInt, r), e.frontTerm(e.pre)), c.Eq(rd, c.Select(v.e0, r))), []*Term{rd}))
			add(c.Forall([]*Term{r}, c.Imp(c.Lt(c.App("root", sInt, r), front), c.Eq(rd, c.Select(v.e0, r))), []*Term{rd}))
		}
	}
	e.generalised(lr, add)
	hinted := map[*Term]bool{}
	for _, t := range e.hintTerms(lr, e.root.hints) {
		hinted[t] = true
		add(t)
	}
	return out, hinted
}

// generalised: what is known about the values the loop starts with may hold
// of the values of every iteration (the same calls produce them).
func (e *Exec) generalised(lr *loopRun, add func(*Term)) {
	c := e.c
	gen := map[*Term]*Term{}
	for _, v := range lr.vars {
		if v.phi == nil && (v.ref == nil || strings.HasPrefix(v.key, "g_") || v.t.sort.kind == 'a') {
			continue
		}
		if (v.e0.op != "var" && v.e0.op != "app" && v.e0.op != "select") || len(v.e0.args) > 2 || v.e0 == v.t {
			continue
		}
		if w, ok := gen[v.e0]; ok {
			add(c.Eq(v.t, w))
			continue
		}
		gen[v.e0] = v.t
	}
	if len(gen) == 0 {
		return
	}
	for _, v := range lr.vars {
		w, same := gen[v.e0]
		switch {
		case same && w == v.t:
		case same:
			add(c.Eq(v.t, w))
		default:
			if x := c.Subst(v.e0, gen); x != v.e0 && len(x.args) < 8 {
				add(c.Eq(v.t, x))
			}
		}
	}
	var facts []*Term
	for t := range e.asserted {
		facts = append(facts, t)
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].id > facts[j].id })
	n := 0
	for _, t := range facts {
		if n >= 40 {
			break
		}
		x := c.Subst(t, gen)
		if x == t || !e.overHead(x, lr) {
			continue
		}
		n++
		add(x)
	}
}

// external: a second opinion on hinted invariants from fresh solver
// processes; returns those that hold.
func (e *Exec) external(ts []*Term, m map[*Term]*Term) []*Term {
	var goals []*Term
	for _, t := range ts {
		goals = append(goals, e.c.Subst(t, m))
	}
	var out []*Term
	for i, ok := range e.s.ExternalAll(goals, 4) {
		if ok {
			out = append(out, ts[i])
		}
	}
	return out
}

func (e *Exec) loopUses(lr *loopRun) []*Term {
	var out []*Term
	for _, t := range e.hintVals(lr, e.root.uses) {
		out = append(out, t)
	}
	return out
}

func (e *Exec) hintTerms(lr *loopRun, cl []Clause) []*Term {
	var out []*Term
	for _, t := range e.hintVals(lr, cl) {
		if t.sort == sBool {
			out = append(out, flattenAnd(t)...)
		}
	}
	return out
}

// hintVals instantiates the contract's loop hints with the values at hand.
func (e *Exec) hintVals(lr *loopRun, cl []Clause) []*Term {
	var out []*Term
	for _, h := range cl {
		if !e.interested(h.tags) {
			continue
		}
		holes := map[string]string{}
		collectHoles(h.n, holes)
		names := sortedKeys(holes)
		var choices [][]specVal
		bad := false
		for _, n := range names {
			ch := e.holeVals(lr, holes[n])
			if len(ch) == 0 {
				bad = true
			}
			choices = append(choices, ch)
		}
		if bad {
			continue
		}
		idx := make([]int, len(names))
		for cnt := 0; cnt < 300; cnt++ {
			env := &Env{st: lr.st, pre: e.pre, vars: e.env, holes: map[string]specVal{}}
			dup := false
			for i, n := range names {
				env.holes[n] = choices[i][idx[i]]
				for j := 0; j < i; j++ {
					if holes[names[j]] == holes[n] && idx[i] == idx[j] {
						dup = true
					}
				}
			}
			if !dup {
				if t := e.tryEval(h.n, env); t != nil && !t.isTrue() && !t.isFalse() {
					out = append(out, t)
				}
			}
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(choices[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				break
			}
		}
	}
	return out
}

func (e *Exec) tryEval(n *Node, env *Env) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				if os.Getenv("GV_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "  hint: %s\n", string(x))
				}
				t = nil
			case unsupportedErr:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return e.evalTerm(n, env)
}

func collectHoles(n *Node, m map[string]string) {
	if n == nil {
		return
	}
	if n.k == "hole" {
		if len(n.bn) > 0 && n.bn[0] != "" {
			m[n.s] = n.bn[0]
		} else if _, ok := m[n.s]; !ok {
			m[n.s] = "int"
		}
	}
	for _, a := range n.a {
		collectHoles(a, m)
	}
	for _, tr := range n.trig {
		for _, a := range tr {
			collectHoles(a, m)
		}
	}
}

func (e *Exec) holeVals(lr *loopRun, tn string) []specVal {
	var out []specVal
	if tn == "int" {
		seen := map[*Term]bool{}
		for _, v := range lr.vars {
			if v.t.sort == sInt && (v.role == "" || v.role == "len" || v.role == "off") {
				if v.typ != nil {
					if _, _, ok := intRange(v.typ); !ok && v.role == "" {
						continue
					}
				}
				if !seen[v.t] {
					seen[v.t] = true
					out = append(out, lg(v.t))
				}
			}
		}
		return out
	}
	if tn == "seq" || tn == "string" {
		for _, v := range lr.vars {
			if v.t.sort == sSeq {
				out = append(out, lg(v.t))
			}
		}
		return out
	}
	// @T: variables of the loop only
	vars := strings.HasPrefix(tn, "@")
	tn = strings.TrimPrefix(tn, "@")
	t := e.w.findType(tn)
	if t == nil {
		panic(serr("unknown hole type %q", tn))
	}
	if vars {
		seen := map[*ssa.Phi]bool{}
		for _, v := range lr.vars {
			if v.phi != nil && !seen[v.phi] && types.Identical(v.phi.Type(), t) {
				seen[v.phi] = true
				out = append(out, specVal{lr.fr.regs[v.phi], t})
			}
		}
		return out
	}
	var regs []ssa.Value
	for f := lr.fr; f != nil; f = f.parent {
		var rs []ssa.Value
		for r := range f.regs {
			if r.Type() != nil && types.Identical(r.Type(), t) {
				rs = append(rs, r)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
		regs = append(regs, rs...)
		seen := map[string]bool{}
		for _, r := range rs {
			v, ok := f.regs[r]
			if !ok {
				continue
			}
			k := ""
			for _, x := range e.flatten(v, t) {
				k += fmt.Sprintf("%d,", x.id)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			out = append(out, specVal{v, t})
		}
		// cells of that type
		for r, v := range f.regs {
			if al, ok := r.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), t) {
				if _, isS := t.Underlying().(*types.Struct); isS {
					continue
				}
				out = append(out, specVal{e.load(lr.st, v, t), t})
			}
		}
	}
	return out
}
