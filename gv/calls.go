package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modLoc struct {
	key  string
	sort *Sort
	ref  *Term // nil: every reference
	lo   *Term // element range of a slice (nil: whole array)
	hi   *Term
}

// CallSite gives native models what they need.
type CallSite struct {
	e    *Exec
	fr   *Frame
	st   *State
	name string
	recv *IfaceV
	args []Val
	sig  *types.Signature
	pos  token.Pos
	k    kont
	cc   *ssa.CallCommon
}

type model func(*CallSite)

func (e *Exec) call(fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos, st *State, k kont) {
	if cc.IsInvoke() {
		e.invoke(fr, cc, fv.(*IfaceV), args, pos, st, k)
		return
	}
	switch f := fv.(type) {
	case builtinV:
		e.builtin(fr, cc, f.name, args, pos, st, k)
	case *FuncV:
		e.callFn(fr, f.fn, f.binds, args, pos, st, k, cc)
	case *Term:
		if fn, ok := e.constFunc(f); ok {
			e.callFn(fr, fn.fn, fn.binds, args, pos, st, k, cc)
			return
		}
		e.nilCheck(f, pos, "(call of nil function)")
		m := "dyncall:" + tkey(cc.Value.Type())
		if md, ok := models[m]; ok {
			e.callPos = pos
			md(&CallSite{e, fr, st, m, nil, append([]Val{f}, args...), cc.Signature(), pos, k, cc})
			return
		}
		e.unknownCall("function value "+tkey(cc.Value.Type()), cc.Signature(), args, st, k)
	default:
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
}

func (e *Exec) constFunc(t *Term) (*FuncV, bool) {
	if t.isInt() {
		f, ok := e.funcs[int(t.val.Int64())]
		return f, ok
	}
	return nil, false
}

func (e *Exec) callFn(fr *Frame, fn *ssa.Function, binds, args []Val, pos token.Pos, st *State, k kont, cc *ssa.CallCommon) {
	name := fname(fn)
	if e.suppress == 0 {
		e.reached[name] = true
		e.clientWait(name, pos)
	}
	if e.inInit && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
		k(st, nil)
		return
	}
	if md, ok := models[name]; ok {
		e.trusted[name] = true
		e.callPos = pos
		md(&CallSite{e, fr, st, name, nil, args, fn.Signature, pos, k, cc})
		return
	}
	if cn := e.w.spec.contracts[name]; cn != nil && !e.root.inline[name] && (cn.extern || !e.root.inline["*"]) && name != e.noContract {
		ns := cn.params
		if len(ns) != len(args) {
			ns = paramNames(fn.Signature)
		}
		e.applyContract(fr, cn, fn.Signature, ns, args, pos, st, k)
		return
	}
	if len(fn.Blocks) == 0 {
		e.unknownCall(name, fn.Signature, args, st, k)
		return
	}
	// a function without a contract is checked as part of its caller
	d := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			d++
		}
	}
	if d > 1 {
		panic(unsupported("recursion without contract: " + name))
	}
	if fn.Parent() == nil {
		e.inlined[name] = true
	}
	e.runFunc(fn, args, binds, st, fr, k)
}

func paramNames(sig *types.Signature) []string {
	var ns []string
	if r := sig.Recv(); r != nil {
		ns = append(ns, r.Name())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ns = append(ns, sig.Params().At(i).Name())
	}
	return ns
}
func paramTypes(sig *types.Signature) []types.Type {
	var ns []types.Type
	if r := sig.Recv(); r != nil {
		ns = append(ns, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ns = append(ns, sig.Params().At(i).Type())
	}
	return ns
}

func (e *Exec) invoke(fr *Frame, cc *ssa.CallCommon, recv *IfaceV, args []Val, pos token.Pos, st *State, k kont) {
	c := e.c
	e.mustNotPanic(c.Ne(recv.tag, c.zero), "nil interface call ."+cc.Method.Name(), pos)
	it := cc.Value.Type()
	iname := tkey(it) + "." + cc.Method.Name()
	if recv.tag.isInt() {
		if t := e.typeByID(int(recv.tag.val.Int64())); t != nil {
			if fn := e.w.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); fn != nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn != nil && len(fn.Blocks) > 0 {
				e.callFn(fr, fn, nil, append([]Val{e.unbox(recv, t)}, args...), pos, st, k, cc)
				return
			}
		}
	}
	if v, ok := e.pureCall(st, recv, it, cc.Method.Name()); ok {
		k(st, []Val{v})
		return
	}
	if e.suppress == 0 {
		e.reached[iname] = true
		e.clientWait(iname, pos)
	}
	if md, ok := models[iname]; ok {
		e.trusted[iname] = true
		e.callPos = pos
		md(&CallSite{e, fr, st, iname, recv, args, cc.Signature(), pos, k, cc})
		return
	}
	if md, ok := models["any."+cc.Method.Name()]; ok && tkey(it) == "error" {
		e.callPos = pos
		md(&CallSite{e, fr, st, iname, recv, args, cc.Signature(), pos, k, cc})
		return
	}
	if cn := e.w.spec.contracts[iname]; cn != nil {
		sig := cc.Signature()
		names := []string{"this"}
		if len(cn.params) > 0 {
			names = cn.params
		}
		for i := 0; i < sig.Params().Len() && len(cn.params) == 0; i++ {
			n := sig.Params().At(i).Name()
			if n == "" {
				n = fmt.Sprintf("p%d", i)
			}
			names = append(names, n)
		}
		e.applyContractT(fr, cn, sig, names, append([]types.Type{it}, paramTypes(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), false))...), append([]Val{recv}, args...), pos, st, k)
		return
	}
	e.unknownCall(iname, cc.Signature(), args, st, k)
}

// unknownCall: no model. Results arbitrary, memory reachable from the arguments arbitrary.
func (e *Exec) unknownCall(name string, sig *types.Signature, args []Val, st *State, k kont) {
	e.trusted["unmodelled: "+name] = true
	st = st.clone()
	e.newFrontier(st)
	i := 0
	if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
		e.havocArg(st, args[0], sig.Recv().Type())
		i = 1
	}
	for j := 0; j < sig.Params().Len() && i+j < len(args); j++ {
		e.havocArg(st, args[i+j], sig.Params().At(j).Type())
	}
	k(st, e.freshResults(st, sig, name))
}

func (e *Exec) havocArg(st *State, v Val, t types.Type) {
	switch x := v.(type) {
	case *SliceV:
		et := t.Underlying().(*types.Slice).Elem()
		if e.objMode(et) {
			return
		}
		for _, cc := range e.comps(et) {
			e.hwrite(st, memKey(et)+cc.path, x.base, e.freshArr(st, "hv", e.c.arr(sInt, cc.sort)))
		}
	case *Term:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			e.havocObj(st, x, p.Elem())
		}
	}
}
func (e *Exec) havocObj(st *State, p Val, T types.Type) {
	v := e.freshVal(st, T, "hv")
	e.store(st, p, T, v)
}

func (e *Exec) freshResults(st *State, sig *types.Signature, hint string) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, e.freshVal(st, sig.Results().At(i).Type(), shortHint(hint)+"_r"))
	}
	return res
}
func shortHint(h string) string {
	if i := strings.LastIndexByte(h, '.'); i >= 0 {
		h = h[i+1:]
	}
	return h
}

// ---- contracts at call sites ----

func (e *Exec) applyContract(fr *Frame, cn *Contract, sig *types.Signature, names []string, args []Val, pos token.Pos, st *State, k kont) {
	e.applyContractT(fr, cn, sig, names, paramTypes(sig), args, pos, st, k)
}

func (e *Exec) applyContractT(fr *Frame, cn *Contract, sig *types.Signature, names []string, ts []types.Type, args []Val, pos token.Pos, st *State, k kont) {
	c := e.c
	if cn.extern {
		e.trusted[cn.name] = true
	} else {
		e.usedContracts[cn.name] = true
	}
	pre := st
	env := &Env{st: pre, pre: pre, vars: map[string]specVal{}}
	for i, n := range names {
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		env.vars[n] = specVal{args[i], ts[i]}
	}
	for _, l := range cn.lets {
		env.vars[l.name] = e.eval(l.n, env)
	}
	for _, r := range cn.requires {
		e.oblige("precondition of "+cn.name+": "+clauseName(r), r.tags, e.evalBool(r.n, env), pos)
	}
	if e.noPanic && e.suppress == 0 {
		if !cn.nopanic {
			if !cn.extern && e.interested(e.root.panicTags) {
				e.oblige("no-panic: call of "+cn.name+" (not under a no-panic contract)", e.root.panicTags, c.F, pos)
			}
		}
	}
	for _, p := range cn.panicsIf {
		e.mustNotPanic(c.Not(e.evalBool(p.n, env)), "panic condition of "+cn.name, pos)
	}
	post := st.clone()
	e.newFrontier(post)
	if cn.modAny {
		e.havocAll(post)
	}
	for _, m := range e.modLocs(cn, env) {
		e.havocLoc(post, m)
	}
	if fn := e.w.byName[cn.name]; fn != nil && !cn.extern {
		for _, g := range sortedKeys(e.w.ghostsSetBy(fn)) {
			if e.w.spec.ghosts[g] != nil {
				k, d := e.ghostKey(g)
				e.havocLoc(post, modLoc{key: k, sort: e.ghostSort(d)})
			}
		}
	}
	if cn == e.root && e.suppress == 0 && (cn.terminates && e.interested(cn.termTags)) {
		goal := c.F
		if cn.decreases != nil {
			m0 := e.evalTerm(cn.decreases, &Env{st: e.pre, pre: e.pre, vars: e.env})
			m1 := e.evalTerm(cn.decreases, env)
			goal = c.And(c.Le(c.zero, m0), c.Lt(m1, m0))
		}
		e.oblige("recursion terminates", cn.termTags, goal, pos)
	}
	if e.curGo > 0 {
		for _, m := range e.modLocs(cn, env) {
			if m.ref != nil {
				lo, hi := m.lo, m.hi
				e.goRegions = append(e.goRegions, goRegion{e.curGo, m.key, m.ref, lo, hi})
			}
		}
	}
	res := e.freshResults(post, sig, cn.name)
	env2 := &Env{st: post, pre: pre, vars: env.vars}
	env2.vars = map[string]specVal{}
	for n, v := range env.vars {
		env2.vars[n] = v
	}
	bindResults(env2, sig, res)
	for i, n := range cn.results {
		if i < len(res) {
			env2.vars[n] = specVal{res[i], sig.Results().At(i).Type()}
		}
	}
	for _, g := range cn.ghostSets {
		// history variable: recorded at every call, by definition
		if g.n.k != "bin" || g.n.s != "==" || g.n.a[0].k != "ghost" {
			panic(serr("set: @ghost(..) == expr expected: %s", g.src))
		}
		var idx []*Term
		for _, a := range g.n.a[0].a {
			idx = append(idx, e.evalTerm(a, env2))
		}
		e.gwrite(post, g.n.a[0].s, e.evalTerm(g.n.a[1], env2), idx...)
	}
	for _, d := range cn.onexit {
		e.assume(e.evalBool(d.n, env2))
	}
	for _, en := range cn.ensures {
		if e.interested(en.tags) || cn.extern {
			e.assume(e.evalBool(en.n, env2))
		}
	}
	if e.infeasible() {
		return // e.g. a function that never returns
	}
	k(post, res)
}

func bindResults(env *Env, sig *types.Signature, res []Val) {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		v := specVal{res[i], sig.Results().At(i).Type()}
		if n == 1 {
			env.vars["ret"] = v
		}
		env.vars[fmt.Sprintf("ret%d", i)] = v
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			if _, dup := env.vars[nm]; !dup {
				env.vars[nm] = v
			}
		}
	}
}

func clauseName(c Clause) string {
	if c.name != "" {
		return c.name
	}
	s := c.src
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

func (e *Exec) havocAll(st *State) {
	for k, t := range st.heap {
		if strings.HasPrefix(k, "g:") && e.w.spec.ghosts[k[2:]] != nil && strings.HasPrefix(k, "g:k_") {
			continue
		}
		st.heap[k] = e.freshArr(st, "Hany", t.sort)
	}
	// keys never touched so far
	e.c.fresh++
	st.gen = e.c.fresh
	if st.frontK > 0 {
		e.newFrontier(st)
	}
	st.genEp = arrFront{st.front, st.epoch}
}

// modLocs evaluates a modifies list.
func (e *Exec) modLocs(cn *Contract, env *Env) []modLoc {
	var out []modLoc
	c := e.c
	for _, n := range cn.modifies {
		switch n.k {
		case "field":
			x := e.eval(n.a[0], env)
			T := deref(x.t)
			s := T.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() != n.s {
					continue
				}
				ft := s.Field(i).Type()
				if isStruct(ft) || isArray(ft) {
					out = append(out, e.objLocs(e.fieldLoc(x.v, T, i), ft)...)
				} else {
					for _, cc := range e.comps(ft) {
						out = append(out, modLoc{key: tkey(T) + "." + n.s + cc.path, sort: cc.sort, ref: x.v.(*Term)})
					}
				}
			}
		case "ghost":
			k, g := e.ghostKey(n.s)
			if len(n.a) == 0 {
				out = append(out, modLoc{key: k, sort: e.ghostSort(g)})
			} else {
				out = append(out, modLoc{key: k, sort: e.ghostSort(g), ref: e.evalTerm(n.a[0], env)})
			}
		case "call":
			switch n.s {
			case "bytes", "elems":
				x := e.eval(n.a[0], env)
				sv := x.v.(*SliceV)
				et := x.t.Underlying().(*types.Slice).Elem()
				for _, cc := range e.comps(et) {
					out = append(out, modLoc{key: memKey(et) + cc.path, sort: c.arr(sInt, cc.sort), ref: sv.base, lo: sv.off, hi: c.Add(sv.off, sv.len)})
				}
			case "backing": // whole backing array
				x := e.eval(n.a[0], env)
				sv := x.v.(*SliceV)
				et := x.t.Underlying().(*types.Slice).Elem()
				for _, cc := range e.comps(et) {
					out = append(out, modLoc{key: memKey(et) + cc.path, sort: c.arr(sInt, cc.sort), ref: sv.base})
				}
			case "obj":
				x := e.eval(n.a[0], env)
				out = append(out, e.objLocs(x.v, deref(x.t))...)
			case "map":
				x := e.eval(n.a[0], env)
				out = append(out, e.mapLocs(x.v.(*Term), x.t)...)
			case "allof": // every object's field: allof("T.field")
				j := strings.LastIndexByte(n.a[0].s, '.')
				T := e.w.findType(n.a[0].s[:j])
				if T == nil {
					panic(serr("unknown type %s", n.a[0].s[:j]))
				}
				s := T.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n.a[0].s[j+1:] || n.a[0].s[j+1:] == "*" {
						for _, cc := range e.comps(s.Field(i).Type()) {
							out = append(out, modLoc{key: tkey(T) + "." + s.Field(i).Name() + cc.path, sort: cc.sort})
						}
					}
				}
			case "allmem":
				T := e.w.findType(n.a[0].s)
				for _, cc := range e.comps(T) {
					out = append(out, modLoc{key: memKey(T) + cc.path, sort: c.arr(sInt, cc.sort)})
				}
			default:
				panic(serr("modifies %s", n.s))
			}
		default:
			panic(serr("modifies %s", nodeStr(n)))
		}
	}
	return out
}

func (e *Exec) objLocs(p Val, T types.Type) []modLoc {
	var out []modLoc
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		if a, ok := T.Underlying().(*types.Array); ok {
			for _, cc := range e.comps(a.Elem()) {
				out = append(out, modLoc{key: memKey(a.Elem()) + cc.path, sort: e.c.arr(sInt, cc.sort), ref: p.(*Term)})
			}
			return out
		}
		for _, cc := range e.comps(T) {
			out = append(out, modLoc{key: "cell:" + tkey(T) + cc.path, sort: cc.sort, ref: p.(*Term)})
		}
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isStruct(ft) || isArray(ft) {
			out = append(out, e.objLocs(e.fieldLoc(p, T, i), ft)...)
			continue
		}
		for _, cc := range e.comps(ft) {
			out = append(out, modLoc{key: tkey(T) + "." + s.Field(i).Name() + cc.path, sort: cc.sort, ref: p.(*Term)})
		}
	}
	return out
}
func (e *Exec) mapLocs(m *Term, t types.Type) []modLoc {
	c := e.c
	n := mapKeyName(t)
	ks := e.mapKeySort(t)
	out := []modLoc{{key: n + "#dom", sort: c.arr(ks, sBool), ref: m}, {key: n + "#len", sort: sInt, ref: m}}
	for _, cc := range e.comps(t.Underlying().(*types.Map).Elem()) {
		out = append(out, modLoc{key: n + cc.path, sort: c.arr(ks, cc.sort), ref: m})
	}
	return out
}

func (e *Exec) havocLoc(st *State, m modLoc) {
	if m.ref == nil {
		st.heap[m.key] = e.freshArr(st, "Hv", e.c.arr(sInt, m.sort))
		return
	}
	old := e.hread(st, m.key, m.sort, m.ref)
	v := e.freshArr(st, "hv", m.sort)
	if m.sort == sInt && strings.HasSuffix(m.key, "#len") {
		e.assume(e.c.Le(e.c.zero, v))
	}
	e.hwrite(st, m.key, m.ref, v)
	if m.lo != nil { // elements outside the range keep their values
		b := e.c.BVar("j", sInt)
		e.assume(e.c.Forall([]*Term{b}, e.c.Or(e.c.And(e.c.Le(m.lo, b), e.c.Lt(b, m.hi)), e.c.Eq(e.c.Select(v, b), e.c.Select(old, b))), []*Term{e.c.Select(v, b)}))
	}
}

// ---- builtins ----

func (e *Exec) builtin(fr *Frame, cc *ssa.CallCommon, name string, args []Val, pos token.Pos, st *State, k kont) {
	c := e.c
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "len" {
				k(st, []Val{x.len})
			} else {
				k(st, []Val{x.cap})
			}
		case *Term:
			if x.sort == sSeq {
				k(st, []Val{c.SLen(x)})
				return
			}
			switch cc.Args[0].Type().Underlying().(type) {
			case *types.Map:
				e.guardMap(st, x, cc.Args[0].Type(), false, pos)
				l := e.mapLen(st, x, cc.Args[0].Type())
				l = c.Ite(c.Eq(x, c.zero), c.zero, l)
				e.assume(c.And(c.Le(c.zero, l), c.Le(l, c.Big(maxLen))))
				k(st, []Val{l})
			case *types.Chan:
				if name == "cap" {
					k(st, []Val{e.hread(st, "chan#cap", sInt, x)})
				} else {
					v := c.Fresh("chanlen", sInt)
					e.setRange(v, bigZero, maxLen)
					k(st, []Val{v})
				}
			case *types.Pointer:
				k(st, []Val{c.Int(deref(cc.Args[0].Type()).Underlying().(*types.Array).Len())})
			default:
				panic(unsupported("len"))
			}
		case *ArrayV:
			k(st, []Val{c.Int(x.n)})
		default:
			panic(unsupported("len"))
		}
	case "append":
		s := args[0].(*SliceV)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			k(st, []Val{s})
			return
		}
		e.appendOp(st, s, args[1], cc.Args[1].Type(), et, pos, func(st2 *State, r *SliceV) { k(st2, []Val{r}) })
	case "copy":
		d := args[0].(*SliceV)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		var n *Term
		if s, ok := args[1].(*SliceV); ok {
			n = c.Ite(c.Le(d.len, s.len), d.len, s.len)
			n = e.simplIte(n)
			st = st.clone()
			e.useSlice(st, d, pos)
			e.useSlice(st, s, pos)
			if isByte(et) {
				e.setContent(st, &SliceV{d.base, d.off, n, n}, c.zero, e.content(st, &SliceV{s.base, s.off, n, n}))
			} else {
				for _, q := range e.comps(et) {
					e.setMemArr(st, d.base, et, q, c.CopyArr(e.memArr(st, d.base, et, q), d.off, e.memArr(st, s.base, et, q), s.off, n))
				}
			}
			e.regionWrite(memKey(et), d.base, d.off, c.Add(d.off, n))
		} else {
			s := args[1].(*Term)
			n = e.simplIte(c.Ite(c.Le(d.len, c.SLen(s)), d.len, c.SLen(s)))
			st = st.clone()
			e.setContent(st, d, c.zero, c.SSub(s, c.zero, n))
		}
		k(st, []Val{n})
	case "delete":
		m := args[0].(*Term)
		st = st.clone()
		e.guardMap(st, m, cc.Args[0].Type(), true, pos)
		// deleting from a nil map is a no-op
		if e.valid(c.Ne(m, c.zero)) {
			e.mapDelete(st, m, cc.Args[0].Type(), args[1])
			k(st, nil)
		} else {
			e.branch(c.Eq(m, c.zero), func() { k(st.clone(), nil) }, func() {
				s2 := st.clone()
				e.mapDelete(s2, m, cc.Args[0].Type(), args[1])
				k(s2, nil)
			})
		}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		k(st, []Val{e.simplIte(r)})
	case "close":
		st = st.clone()
		e.chanClose(st, args[0].(*Term), cc.Args[0].Type(), pos)
		k(st, nil)
	case "panic":
		e.mustNotPanic(c.F, "explicit panic", pos)
	case "print", "println":
		k(st, nil)
	case "recover":
		k(st, []Val{&IfaceV{c.zero, c.zero}})
	case "clear":
		m := args[0].(*Term)
		st = st.clone()
		t := cc.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			e.guardMap(st, m, t, true, pos)
			n := mapKeyName(t)
			e.hwrite(st, n+"#dom", m, c.ConstArr(e.mapKeySort(t), c.F))
			e.hwrite(st, n+"#len", m, c.zero)
			k(st, nil)
			return
		}
		panic(unsupported("clear"))
	case "ssa:wrapnilchk":
		e.nilCheck(args[0], pos, "(method wrapper)")
		k(st, []Val{args[0]})
	default:
		panic(unsupported("builtin " + name))
	}
}

// simplIte resolves an ite whose condition is decided on this path.
func (e *Exec) simplIte(t *Term) *Term {
	if t.op != "ite" {
		return t
	}
	if e.valid(t.args[0]) {
		return e.simplIte(t.args[1])
	}
	if e.valid(e.c.Not(t.args[0])) {
		return e.simplIte(t.args[2])
	}
	return t
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Exec) appendOp(st *State, s *SliceV, more Val, mt types.Type, et types.Type, pos token.Pos, k func(*State, *SliceV)) {
	c := e.c
	var n *Term
	var src *SliceV
	var str *Term
	switch x := more.(type) {
	case *SliceV:
		n, src = x.len, x
		e.useSlice(st, x, pos)
	case *Term:
		n, str = c.SLen(x), x
	}
	e.useSlice(st, s, pos)
	if n == c.zero {
		k(st, s)
		return
	}
	newLen := c.Add(s.len, n)
	put := func(st *State, base *Term, off *Term, pre func(q Comp) *Term) {
		for _, q := range e.comps(et) {
			dst := pre(q)
			if isByte(et) {
				var seq *Term
				if str != nil {
					seq = str
				} else {
					seq = e.content(st, src)
				}
				e.setMemArr(st, base, et, q, c.Splice(dst, c.Add(off, s.len), seq))
			} else {
				e.setMemArr(st, base, et, q, c.CopyArr(dst, c.Add(off, s.len), e.memArr(st, src.base, et, q), src.off, n))
			}
		}
	}
	inPlace := func() {
		s2 := st.clone()
		put(s2, s.base, s.off, func(q Comp) *Term { return e.memArr(s2, s.base, et, q) })
		e.regionWrite(memKey(et), s.base, c.Add(s.off, s.len), c.Add(s.off, newLen))
		k(s2, &SliceV{s.base, s.off, newLen, s.cap})
	}
	grow := func() {
		s2 := st.clone()
		r := e.alloc(s2)
		cp := c.Fresh("cap", sInt)
		MarkNonneg(cp)
		e.setRange(cp, bigZero, maxLen)
		e.assume(c.Le(newLen, cp))
		put(s2, r, c.zero, func(q Comp) *Term {
			z := c.ConstArr(sInt, e.zeroSort(q.sort))
			if isByte(et) {
				return c.Splice(z, c.zero, e.content(st, s))
			}
			return c.CopyArr(z, c.zero, e.memArr(st, s.base, et, q), s.off, s.len)
		})
		k(s2, &SliceV{r, c.zero, newLen, cp})
	}
	e.branch(c.Le(newLen, s.cap), inPlace, grow)
}

// regionWrite records element writes of goroutines run under WaitGroup.
func (e *Exec) regionWrite(key string, base, lo, hi *Term) {
	if e.curGo > 0 && e.c.frontierOf(base) == 0 {
		e.goRegions = append(e.goRegions, goRegion{e.curGo, key, base, lo, hi})
	}
}

// ---- goroutines ----

func (e *Exec) goStmt(fr *Frame, x *ssa.Go, st *State, k kont) {
	var as []Val
	for _, a := range x.Call.Args {
		as = append(as, e.val(fr, a))
	}
	fv := e.val(fr, x.Call.Value)
	if e.inInit {
		k(st, nil)
		return
	}
	if e.root.opts["seqgo"] != "" {
		// Fork-join block: run in place; disjointness of the goroutines'
		// writes is an obligation at Wait.
		e.nGo++
		save := e.curGo
		e.curGo = e.nGo
		e.call(fr, &x.Call, fv, as, x.Pos(), st.clone(), func(st2 *State, _ []Val) {
			g := e.curGo
			e.curGo = save
			k(st2, nil)
			e.curGo = g
		})
		e.curGo = save
		return
	}
	// An independent goroutine: its body is checked on its own, starting from
	// the state at the go statement; what it shares with the spawner is only
	// what locks and channels guard.
	e.push()
	s2 := st.clone()
	if e.w.spec.ghosts["k_own"] != nil {
		// what the spawner holds it does not share
		gk, d := e.ghostKey("k_own")
		e.havocLoc(s2, modLoc{key: gk, sort: e.ghostSort(d)})
	}
	e.inGo++
	saveEx := e.exitK
	e.call(fr, &x.Call, fv, as, x.Pos(), s2, func(st2 *State, _ []Val) {})
	e.exitK = saveEx
	e.inGo--
	e.pop()
	k(st, nil)
}

// ---- interior facts used by models ----

func (e *Exec) useMem(st *State, p Val, pos token.Pos) {
	if a, ok := p.(*AddrV); ok && a.idx != nil {
		e.useBase(st, a.ref, pos)
	}
}
func (e *Exec) useSlice(st *State, s *SliceV, pos token.Pos) { e.useBase(st, s.base, pos) }

// useBase: memory given back to a pool must not be used any more.
func (e *Exec) useBase(st *State, base *Term, pos token.Pos) {
	if e.w.spec.ghosts["released"] == nil {
		return
	}
	if _, touched := st.heap["g:released"]; !touched {
		return
	}
	r := e.gread(st, "released", base)
	g := e.c.Not(r)
	if g.isTrue() || e.known(g) {
		return
	}
	e.oblige("no use of memory after it went back to a pool", e.root.poolTags(), g, pos)
}

func (c *Contract) poolTags() []string {
	if t := c.opts["pooltags"]; t != "" {
		return strings.Split(t, ",")
	}
	return nil
}

// ---- locks ----

func (e *Exec) lockInit(st *State, r *Term, T types.Type) {}

func (e *Exec) guardOf(typ string) *guardDecl { return e.w.spec.guards[typ] }

// guard: access to a lock-protected field needs the lock.
func (e *Exec) guard(st *State, p Val, T types.Type, write bool, pos token.Pos) {
	a, ok := p.(*AddrV)
	if !ok {
		if r, ok := p.(*Term); ok {
			e.guardDeep(st, tkey(T)+".*", r, write, pos)
		}
		return
	}
	if a.idx != nil {
		if write {
			e.regionWrite(a.key, a.ref, a.idx, e.c.AddI(a.idx, 1))
		}
		return
	}
	if a.root == "" {
		return
	}
	e.guardEmb(st, a.bptr, write, pos)
	e.guardDeep(st, a.root, a.bptr, write, pos)
	j := strings.LastIndexByte(a.root, '.')
	g := e.guardOf(a.root[:j])
	if g == nil || !g.fields[a.root[j+1:]] {
		return
	}
	if e.c.frontierOf(a.bptr) > 0 {
		return // not shared yet: created by this call
	}
	e.needLock(st, g, a.bptr, write, pos, a.root)
}

// guardDeep: objects reached through a guarded field are only touched while a
// lock of that kind is held.
func (e *Exec) guardDeep(st *State, root string, r *Term, write bool, pos token.Pos) {
	j := strings.LastIndexByte(root, '.')
	for _, typ := range sortedKeys(e.w.spec.guards) {
		g := e.w.spec.guards[typ]
		for _, d := range g.deep {
			if d != root && d != root[:j]+".*" && !(strings.HasSuffix(root, ".*") && strings.HasPrefix(d, root[:j+1])) {
				continue
			}
			if e.c.frontierOf(r) > 0 {
				return
			}
			var or []*Term
			for _, o := range e.locked {
				if o.g == g {
					h := e.gread(st, "held", e.lockRef(g, o.obj))
					if write {
						or = append(or, e.c.Eq(h, e.c.Int(2)))
					} else {
						or = append(or, e.c.Le(e.c.one, h))
					}
				}
			}
			goal := e.c.Or(or...)
			if !e.known(goal) {
				e.oblige("lock held while accessing "+root, g.tags, goal, pos)
			}
			return
		}
	}
}

// guardEmb: r may be a struct embedded in a guarded field.
func (e *Exec) guardEmb(st *State, r *Term, write bool, pos token.Pos) {
	for r.op == "app" && strings.HasPrefix(r.name, "emb!") {
		obj := r.args[0]
		for _, typ := range sortedKeys(e.w.spec.guards) {
			g := e.w.spec.guards[typ]
			for _, f := range sortedKeys(g.fields) {
				if f != g.lock && r.name == "emb!"+sanitize(typ+"."+f) && e.c.frontierOf(obj) == 0 {
					e.needLock(st, g, obj, write, pos, typ+"."+f)
				}
			}
		}
		r = obj
	}
}

func (e *Exec) lockRef(g *guardDecl, obj *Term) *Term {
	T := e.w.findType(g.typ)
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == g.lock {
			return e.fieldLoc(obj, T, i).(*Term)
		}
	}
	panic(serr("no lock field %s in %s", g.lock, g.typ))
}

func (e *Exec) needLock(st *State, g *guardDecl, obj *Term, write bool, pos token.Pos, what string) {
	h := e.gread(st, "held", e.lockRef(g, obj))
	var goal *Term
	if write {
		goal = e.c.Eq(h, e.c.Int(2))
	} else {
		goal = e.c.Le(e.c.one, h)
	}
	if e.known(goal) {
		return
	}
	e.oblige("lock held while accessing "+what, g.tags, goal, pos)
}

// guardMap: maps reached through a guarded field.
func (e *Exec) guardMap(st *State, m *Term, t types.Type, write bool, pos token.Pos) {
	for _, typ := range sortedKeys(e.w.spec.guards) {
		g := e.w.spec.guards[typ]
		T := e.w.findType(g.typ)
		if T == nil {
			continue
		}
		s := T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if g.fields[s.Field(i).Name()] && types.Identical(s.Field(i).Type(), t) {
				// which object owns this map? the one it was loaded from
				if m.op == "select" || m.op == "var" || m.op == "app" {
					if o, ok := e.mapOwner(st, m, T, s.Field(i).Name()); ok {
						if e.c.frontierOf(o) > 0 {
							return
						}
						e.needLock(st, g, o, write, pos, g.typ+"."+s.Field(i).Name()+" (map)")
						return
					}
				}
			}
		}
	}
}

// mapOwner finds obj with obj.field == m in the current heap, syntactically.
func (e *Exec) mapOwner(st *State, m *Term, T types.Type, f string) (*Term, bool) {
	if m.op == "select" {
		return m.args[1], true
	}
	h := e.hget(st, tkey(T)+"."+f, sInt)
	for h.op == "store" {
		if h.args[2] == m {
			return h.args[1], true
		}
		h = h.args[0]
	}
	return nil, false
}

func (e *Exec) lockObj(lock *Term) (g *guardDecl, obj *Term) {
	for _, typ := range sortedKeys(e.w.spec.guards) {
		gd := e.w.spec.guards[typ]
		if lock.op == "app" && lock.name == "emb!"+sanitize(gd.typ+"."+gd.lock) {
			return gd, lock.args[0]
		}
		if lock.op == "app" && strings.HasPrefix(lock.name, "emb!") {
			// lock inside an embedded struct of the guarded type
			continue
		}
	}
	return nil, nil
}

// acquire models Lock/RLock: write=2, read=1.
func (e *Exec) acquire(st *State, lock *Term, mode int64, pos token.Pos) {
	c := e.c
	h := e.gread(st, "held", lock)
	e.oblige("lock not already held by this goroutine (self-deadlock)", e.lockTags(lock), c.Eq(h, c.zero), pos)
	e.gwrite(st, "held", c.Int(mode), lock)
	n := e.hread(st, "g:acq", sInt, lock)
	e.hwrite(st, "g:acq", lock, c.AddI(n, 1))
	g, obj := e.lockObj(lock)
	if g == nil {
		return
	}
	e.locked = append(e.locked, lockedObj{g, obj})
	atomic := e.root.opts["atomic"] != ""
	if atomic && n == c.zero {
		// linearisation point: the entry state stands for the state at the
		// first acquisition (nothing guarded is touched before)
	} else {
		if atomic && c.frontierOf(obj) == 0 {
			e.oblige("one critical section per operation", g.tags, c.Eq(n, c.zero), pos)
		}
		e.havocGuarded(st, g, obj)
	}
	if g.inv != nil {
		env := &Env{st: st, pre: st, vars: map[string]specVal{"s": {obj, types.NewPointer(e.w.findType(g.typ))}}}
		e.assume(e.evalBool(g.inv, env))
	}
}

func (e *Exec) havocGuarded(st *State, g *guardDecl, obj *Term) {
	T := e.w.findType(g.typ)
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if !g.fields[s.Field(i).Name()] {
			continue
		}
		ft := s.Field(i).Type()
		loc := e.fieldLoc(obj, T, i)
		if mt, ok := ft.Underlying().(*types.Map); ok {
			_ = mt
			m := e.load(st, loc, ft).(*Term)
			for _, l := range e.mapLocs(m, ft) {
				e.havocLoc(st, l)
			}
			if g.fields[s.Field(i).Name()+"!fixed"] {
				continue
			}
		}
		v := e.freshVal(st, ft, "lk_"+s.Field(i).Name())
		e.store(st, loc, ft, v)
		if _, ok := ft.Underlying().(*types.Map); ok {
			for _, l := range e.mapLocs(v.(*Term), ft) {
				e.havocLoc(st, l)
			}
		}
	}
	for _, d := range g.deep {
		j := strings.LastIndexByte(d, '.')
		T := e.w.findType(d[:j])
		s := T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == d[j+1:] || d[j+1:] == "*" {
				for _, cc := range e.comps(s.Field(i).Type()) {
					e.havocLoc(st, modLoc{key: tkey(T) + "." + s.Field(i).Name() + cc.path, sort: cc.sort})
				}
			}
		}
	}
}

func (e *Exec) release(st *State, lock *Term, mode int64, pos token.Pos) {
	c := e.c
	h := e.gread(st, "held", lock)
	e.oblige("unlock of a lock that is held", e.lockTags(lock), c.Eq(h, c.Int(mode)), pos)
	if g, obj := e.lockObj(lock); g != nil && g.inv != nil && mode == 2 {
		if len(e.root.atRelease) > 0 {
			env := &Env{st: st, pre: e.pre, vars: e.env}
			for _, gs := range e.root.atRelease {
				var idx []*Term
				for _, a := range gs.n.a[0].a {
					idx = append(idx, e.evalTerm(a, env))
				}
				e.gwrite(st, gs.n.a[0].s, e.evalTerm(gs.n.a[1], env), idx...)
			}
		}
		env := &Env{st: st, pre: st, vars: map[string]specVal{"s": {obj, types.NewPointer(e.w.findType(g.typ))}}}
		inv := e.evalBool(g.inv, env)
		if inv.op == "and" {
			for _, x := range inv.args {
				e.oblige("invariant of "+g.typ+" on release", g.tags, x, pos)
			}
		} else {
			e.oblige("invariant of "+g.typ+" on release", g.tags, inv, pos)
		}
	}
	e.gwrite(st, "held", c.zero, lock)
}

func (e *Exec) lockTags(lock *Term) []string {
	if g, _ := e.lockObj(lock); g != nil {
		return g.tags
	}
	if t := e.root.opts["locktags"]; t != "" {
		return strings.Split(t, ",")
	}
	return nil
}

// ---- channels ----
// A channel is a reference; chan#cap its capacity. Ghost counters of what this
// activation did with it: chan#sent, chan#closed.

func (e *Exec) chanSend(st *State, ch *Term, v Val, t types.Type, pos token.Pos) {
	c := e.c
	closed := e.hread(st, "g:chan#closed", sInt, ch)
	e.mustNotPanic(c.Eq(closed, c.zero), "send on closed channel", pos)
	n := e.hread(st, "g:chan#sent", sInt, ch)
	e.hwrite(st, "g:chan#sent", ch, c.AddI(n, 1))
	if h := chanHooks["send:"+tkey(t.Underlying().(*types.Chan).Elem())]; h != nil {
		h(e, st, ch, v, pos)
	}
	et := t.Underlying().(*types.Chan).Elem()
	env := &Env{st: st, pre: e.pre, vars: map[string]specVal{"ch": {ch, t}, "v": {v, et}}}
	for _, k := range []string{"message:", "onsend:"} {
		for _, m := range e.w.spec.messages[k+tkey(et)] {
			if e.interested(m.tags) {
				e.oblige("sending: "+clauseName(m), m.tags, e.evalBool(m.n, env), pos)
			}
		}
	}
	for _, m := range e.w.spec.messages["gives:"+tkey(et)] {
		e.hwrite(st, "g:chan#closed", e.evalTerm(m.n, env), c.one)
	}
	e.chanSets(st, "sendset:"+tkey(et), env, c.T)
}

// chanSets makes the ghost updates declared for sending or receiving a message
func (e *Exec) chanSets(st *State, key string, env *Env, cond *Term) {
	for _, m := range e.w.spec.messages[key] {
		g := m.n.a[0]
		idx := make([]*Term, len(g.a))
		for i := range g.a {
			idx[i] = e.evalTerm(g.a[i], env)
		}
		v := e.evalTerm(m.n.a[1], env)
		e.gwrite(st, g.s, e.c.Ite(cond, v, e.gread(st, g.s, idx...)), idx...)
	}
}

func (e *Exec) chanClose(st *State, ch *Term, t types.Type, pos token.Pos) {
	c := e.c
	closed := e.hread(st, "g:chan#closed", sInt, ch)
	e.mustNotPanic(c.And(c.Ne(ch, c.zero), c.Eq(closed, c.zero)), "close of closed or nil channel", pos)
	e.hwrite(st, "g:chan#closed", ch, c.one)
	if h := chanHooks["close:"+tkey(t.Underlying().(*types.Chan).Elem())]; h != nil {
		h(e, st, ch, nil, pos)
	}
	env := &Env{st: st, pre: e.pre, vars: map[string]specVal{"ch": {ch, t}}}
	for _, m := range e.w.spec.messages["onclose:"+tkey(t.Underlying().(*types.Chan).Elem())] {
		if e.interested(m.tags) {
			e.oblige("closing: "+clauseName(m), m.tags, e.evalBool(m.n, env), pos)
		}
	}
}

// clientWait: the goroutine that accepts connections must not run a call that
// only returns when a client does something.
func (e *Exec) clientWait(name string, pos token.Pos) {
	const x = "golang.org/x/crypto/ssh."
	switch name {
	case x + "NewServerConn", x + "NewChannel.Accept", x + "DiscardRequests", "(*github.com/pkg/sftp.RequestServer).Serve":
	default:
		if !strings.HasPrefix(name, "chan "+x) && !strings.HasPrefix(name, "chan *"+x) {
			return
		}
	}
	if t := []string{"C07"}; e.serving && e.inGo == 0 && e.suppress == 0 && e.interested(t) {
		e.oblige("accepting does not wait for a client ("+name+")", t, e.c.F, pos)
	}
}

func (e *Exec) chanRecv(st *State, ch *Term, t types.Type, pos token.Pos) (Val, *Term) {
	et := t.Underlying().(*types.Chan).Elem()
	e.clientWait("chan "+et.String(), pos)
	for _, m := range e.w.spec.messages["onrecv:"+tkey(et)] {
		if e.interested(m.tags) {
			e.oblige("receiving: "+clauseName(m), m.tags, e.evalBool(m.n, &Env{st: st, pre: e.pre, vars: map[string]specVal{"ch": {ch, t}}}), pos)
		}
	}
	e.newFrontier(st)
	v := e.freshVal(st, et, "recv")
	ok := e.c.Fresh("recvok", sBool)
	// a closed channel yields the zero value
	zs, vs := e.flatten(e.zero(et), et), e.flatten(v, et)
	for i := range zs {
		if zs[i].sort.kind != 'a' {
			e.assume(e.c.Or(ok, e.c.Eq(vs[i], zs[i])))
		}
	}
	if h := recvHooks[tkey(et)]; h != nil {
		h(e, st, ch, v, ok, pos)
	}
	env := &Env{st: st, pre: e.pre, vars: map[string]specVal{"ch": {ch, t}, "v": {v, et}}}
	for _, m := range e.w.spec.messages["gives:"+tkey(et)] {
		r := e.evalTerm(m.n, env)
		e.hwrite(st, "g:chan#closed", r, e.c.zero)
		e.hwrite(st, "g:chan#sent", r, e.c.zero)
		if e.w.spec.ghosts["k_cur"] != nil {
			// the receiver now owes an answer on that channel
			e.gwrite(st, "k_cur", e.c.Ite(ok, r, e.c.zero), e.c.zero)
		}
	}
	for _, m := range e.w.spec.messages["message:"+tkey(et)] {
		if e.interested(m.tags) {
			e.assume(e.c.Imp(ok, e.evalBool(m.n, env)))
		}
	}
	e.chanSets(st, "recvset:"+tkey(et), env, ok)
	return v, ok
}

var chanHooks = map[string]func(e *Exec, st *State, ch *Term, v Val, pos token.Pos){}
var recvHooks = map[string]func(e *Exec, st *State, ch *Term, v Val, ok *Term, pos token.Pos){}

func (e *Exec) selectStmt(fr *Frame, x *ssa.Select, st *State, k func(*Frame, *State)) {
	c := e.c
	// result tuple: index, recvOk, recv values...
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	run := func(i int) {
		e.push()
		f2, s2 := fr.clone(), st.clone()
		tv := TupleV{c.Int(int64(i)), c.F}
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				tv = append(tv, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		if i >= 0 {
			s := x.States[i]
			ch := e.val(fr, s.Chan).(*Term)
			if s.Dir == types.RecvOnly {
				v, ok := e.chanRecv(s2, ch, s.Chan.Type(), x.Pos())
				ri := 2
				for j := 0; j < i; j++ {
					if x.States[j].Dir == types.RecvOnly {
						ri++
					}
				}
				tv[ri] = v
				tv[1] = ok
			} else {
				e.selSend = true
				e.chanSend(s2, ch, e.val(fr, s.Send), s.Chan.Type(), x.Pos())
				e.selSend = false
			}
		}
		e.pathLog = append(e.pathLog, fmt.Sprintf("%s select case %d", e.w.pos(x.Pos()), i))
		f2.regs[x] = tv
		if !e.infeasible() {
			k(f2, s2)
		}
		e.pathLog = e.pathLog[:len(e.pathLog)-1]
		e.pop()
	}
	for i := range x.States {
		run(i)
	}
	if !x.Blocking {
		run(-1)
	}
}

// ---- pure interfaces (os.FileInfo and friends) ----

var pureIfaces = map[string]map[string]bool{
	"os.FileInfo":                          {"Name": true, "Size": true, "Mode": true, "ModTime": true, "IsDir": true, "Sys": true},
	"io/fs.FileInfo":                       {"Name": true, "Size": true, "Mode": true, "ModTime": true, "IsDir": true, "Sys": true},
	"golang.org/x/crypto/ssh.ConnMetadata": {"User": true},
	"golang.org/x/crypto/ssh.NewChannel":   {"ChannelType": true},
	"error":                                {"Error": true},
	"net.Listener":                         {"Addr": true},
}

var pureSorts = map[string]types.Type{"Name": stringT, "Size": types.Typ[types.Int64], "IsDir": boolT, "User": stringT, "ChannelType": stringT, "Error": stringT}

// pureMethod: the value of a side-effect free method as a function of the interface value.
func (e *Exec) pureMethod(x *IfaceV, m string) specVal {
	if t, ok := pureSorts[m]; ok {
		// concrete wrapper types of the repository are evaluated by their own methods
		s := e.comps(t)[0].sort
		v := e.c.App("pm!"+m, s, x.tag, x.pay)
		return specVal{v, t}
	}
	return specVal{&IfaceV{e.c.App("pmt!"+m, sInt, x.tag, x.pay), e.c.App("pmp!"+m, sInt, x.tag, x.pay)}, nil}
}

func (e *Exec) pureCall(st *State, x *IfaceV, it types.Type, m string) (Val, bool) {
	if ms := pureIfaces[tkey(it)]; ms == nil || !ms[m] {
		return nil, false
	}
	iface := it.Underlying().(*types.Interface)
	var rt types.Type
	for i := 0; i < iface.NumMethods(); i++ {
		if iface.Method(i).Name() == m {
			rt = iface.Method(i).Type().(*types.Signature).Results().At(0).Type()
		}
	}
	if t, ok := pureSorts[m]; ok {
		v := e.c.App("pm!"+m, e.comps(t)[0].sort, x.tag, x.pay)
		e.typeFacts(st, v, t)
		if v.sort == sSeq {
			e.assume(e.c.Le(e.c.SLen(v), e.c.Big(maxLen)))
		}
		return v, true
	}
	cs := e.comps(rt)
	ts := make([]*Term, len(cs))
	for i, cc := range cs {
		ts[i] = e.c.App("pm!"+m+cc.path, cc.sort, x.tag, x.pay)
	}
	v := e.unflatten(ts, rt)
	e.typeFacts(st, v, rt)
	return v, true
}

// pureIfaceFacts: when a repository type is converted to a pure interface, link
// the interface's method values to what the type's own methods return.
func (e *Exec) pureIfaceFacts(st *State, iv *IfaceV, t types.Type, it types.Type) {
	ms := pureIfaces[tkey(it)]
	if ms == nil || !iv.tag.isInt() {
		return
	}
	for _, m := range sortedKeys(ms) {
		fn := e.w.prog.LookupMethod(t, nil, m)
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		key := fmt.Sprintf("%s|%d|%d", m, iv.tag.id, iv.pay.id)
		if e.pureDone[key] {
			continue
		}
		nres := 0
		var rv []Val
		e.suppress++
		e.runFunc(fn, []Val{e.unbox(iv, t)}, nil, st.clone(), nil, func(_ *State, res []Val) { nres++; rv = res })
		e.suppress--
		if nres == 1 && len(rv) == 1 {
			rt := fn.Signature.Results().At(0).Type()
			fl := e.flatten(rv[0], rt)
			if pt, ok := pureSorts[m]; ok {
				e.assume(e.c.Eq(e.c.App("pm!"+m, e.comps(pt)[0].sort, iv.tag, iv.pay), fl[0]))
			} else {
				for i, cc := range e.comps(rt) {
					e.assume(e.c.Eq(e.c.App("pm!"+m+cc.path, cc.sort, iv.tag, iv.pay), fl[i]))
				}
			}
		}
	}
}

var bigOne = big.NewInt(1)
