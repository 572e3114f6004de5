package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type specVal struct {
	v Val
	t types.Type
}

type Env struct {
	st, pre *State
	vars    map[string]specVal
	holes   map[string]specVal
	quant   int
	depth   int
}

func (v *Env) with(n string, x specVal) *Env {
	m := make(map[string]specVal, len(v.vars)+1)
	for k, y := range v.vars {
		m[k] = y
	}
	m[n] = x
	return &Env{st: v.st, pre: v.pre, vars: m, holes: v.holes, quant: v.quant, depth: v.depth}
}
func (v *Env) at(st *State) *Env {
	return &Env{st: st, pre: v.pre, vars: v.vars, holes: v.holes, quant: v.quant, depth: v.depth}
}

type specErr string

func serr(f string, a ...interface{}) specErr { return specErr(fmt.Sprintf(f, a...)) }

func (e *Exec) sortNamed(n string) *Sort {
	switch n {
	case "int", "ref", "uint64", "byte":
		return sInt
	case "bool":
		return sBool
	case "seq", "string":
		return sSeq
	case "arr":
		return e.c.arr(sInt, sInt)
	case "arrbool", "intset":
		return e.c.arr(sInt, sBool)
	case "arrseq":
		return e.c.arr(sInt, sSeq)
	case "seqset":
		return e.c.arr(sSeq, sBool)
	case "seqint":
		return e.c.arr(sSeq, sInt)
	case "seqseq":
		return e.c.arr(sSeq, sSeq)
	}
	if t := e.w.findType(n); t != nil {
		cs := e.comps(t)
		if len(cs) == 1 {
			return cs[0].sort
		}
	}
	panic(serr("unknown sort %q", n))
}

func lg(t *Term) specVal { return specVal{v: t} }

// evalBool evaluates a boolean spec expression.
func (e *Exec) evalBool(n *Node, env *Env) *Term {
	v := e.eval(n, env)
	t, ok := v.v.(*Term)
	if !ok || t.sort != sBool {
		panic(serr("not boolean: %s", nodeStr(n)))
	}
	return t
}
func (e *Exec) evalTerm(n *Node, env *Env) *Term {
	v := e.eval(n, env)
	switch x := v.v.(type) {
	case *Term:
		return x
	case *SliceV:
		if isByteSlice(v.t) {
			return e.content(env.st, x)
		}
	case *IfaceV:
		return x.pay
	}
	panic(serr("not a scalar (%T): %s", v.v, nodeStr(n)))
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func nodeStr(n *Node) string {
	if n == nil {
		return ""
	}
	if n.src != "" {
		return n.src
	}
	switch n.k {
	case "int":
		return n.n.String()
	case "str":
		return fmt.Sprintf("%q", n.s)
	case "id", "bool":
		return n.s
	case "hole":
		return "?" + n.s
	case "nil":
		return "nil"
	case "field":
		return nodeStr(n.a[0]) + "." + n.s
	case "bin":
		return "(" + nodeStr(n.a[0]) + " " + n.s + " " + nodeStr(n.a[1]) + ")"
	case "un":
		return n.s + nodeStr(n.a[0])
	}
	var as []string
	for _, x := range n.a {
		as = append(as, nodeStr(x))
	}
	return n.k + ":" + n.s + "(" + strings.Join(as, ", ") + ")"
}

func (e *Exec) facts(env *Env, v Val, t types.Type) {
	if env.quant == 0 && t != nil {
		e.typeFacts(env.st, v, t)
	}
}

func (e *Exec) eval(n *Node, env *Env) specVal {
	c := e.c
	switch n.k {
	case "int":
		return lg(c.Big(n.n))
	case "str":
		return lg(c.Lit(n.s))
	case "bool":
		return lg(c.Bool(n.s == "true"))
	case "nil":
		return specVal{v: nil}
	case "hole":
		if v, ok := env.holes[n.s]; ok {
			return v
		}
		panic(serr("unbound hole ?%s", n.s))
	case "id":
		if v, ok := env.vars[n.s]; ok {
			return v
		}
		if d, ok := e.w.spec.defs[n.s]; ok && len(d.params) == 0 {
			return e.eval(d.body, env)
		}
		panic(serr("unknown name %q", n.s))
	case "old":
		return e.eval(n.a[0], env.at(env.pre))
	case "let":
		return e.eval(n.a[1], env.with(n.s, e.eval(n.a[0], env)))
	case "cond":
		k := e.evalBool(n.a[0], env)
		a, b := e.eval(n.a[1], env), e.eval(n.a[2], env)
		ta, tb := e.scalar(a, env), e.scalar(b, env)
		return lg(c.Ite(k, ta, tb))
	case "un":
		if n.s == "!" {
			return lg(c.Not(e.evalBool(n.a[0], env)))
		}
		return lg(c.Neg(e.evalTerm(n.a[0], env)))
	case "quant":
		var bs []*Term
		ev := env
		var ranges []*Term
		for i, b := range n.bn {
			t := e.w.findType(n.bt[i])
			if n.bt[i] == "int" || n.bt[i] == "seq" {
				t = nil
			}
			s := e.sortNamed(n.bt[i])
			v := c.BVar(b, s)
			bs = append(bs, v)
			if t != nil {
				if lo, hi, ok := intRange(t); ok {
					ranges = append(ranges, c.Le(c.Big(lo), v), c.Le(v, c.Big(hi)))
				}
			}
			ev = ev.with(b, specVal{v, t})
		}
		ev.quant++
		defer func() { ev.quant-- }()
		body := e.evalBool(n.a[0], ev)
		var trs [][]*Term
		for _, tr := range n.trig {
			var ts []*Term
			for _, x := range tr {
				ts = append(ts, e.scalar(e.eval(x, ev), ev))
			}
			trs = append(trs, ts)
		}
		if n.s == "forall" {
			return lg(c.Forall(bs, c.Imp(c.And(ranges...), body), trs...))
		}
		return lg(c.Exists(bs, c.And(append(ranges, body)...)))
	case "bin":
		return e.evalBin(n, env)
	case "field":
		if n.a[0].k == "id" {
			if _, ok := env.vars[n.a[0].s]; !ok {
				if g := e.w.globalNamed(n.a[0].s + "." + n.s); g != nil {
					T := deref(g.Type())
					v := e.load(env.st, e.globalRef(g), T)
					e.facts(env, v, T)
					return specVal{v, T}
				}
				panic(serr("unknown name %q", n.a[0].s+"."+n.s))
			}
		}
		x := e.eval(n.a[0], env)
		return e.evalField(x, n.s, env)
	case "index":
		x := e.eval(n.a[0], env)
		switch v := x.v.(type) {
		case *Term:
			if v.sort == sSeq {
				return lg(c.SAt(v, e.evalTerm(n.a[1], env)))
			}
			if v.sort.kind == 'a' {
				return lg(c.Select(v, e.evalTerm(n.a[1], env)))
			}
			if x.t != nil {
				if m, ok := x.t.Underlying().(*types.Map); ok {
					k := e.eval(n.a[1], env)
					r, _ := e.mapGet(env.st, v, x.t, k.v)
					e.facts(env, r, m.Elem())
					return specVal{r, m.Elem()}
				}
			}
		case *SliceV:
			et := x.t.Underlying().(*types.Slice).Elem()
			i := e.evalTerm(n.a[1], env)
			if e.objMode(et) {
				return specVal{e.elemRef(v.base, c.Add(v.off, i), et), types.NewPointer(et)}
			}
			r := e.load(env.st, &AddrV{key: memKey(et), ref: v.base, idx: c.Add(v.off, i), typ: et}, et)
			e.facts(env, r, et)
			return specVal{r, et}
		case *ArrayV:
			i := e.evalTerm(n.a[1], env)
			var ts []*Term
			for _, m := range v.comps {
				ts = append(ts, c.Select(m, i))
			}
			return specVal{e.unflatten(ts, v.elem), v.elem}
		}
		panic(serr("cannot index %s", nodeStr(n.a[0])))
	case "slice":
		x := e.eval(n.a[0], env)
		lo := e.evalTerm(n.a[1], env)
		switch v := x.v.(type) {
		case *SliceV:
			hi := v.len
			if n.a[2] != nil {
				hi = e.evalTerm(n.a[2], env)
			}
			return specVal{&SliceV{v.base, c.Add(v.off, lo), c.Sub(hi, lo), c.Sub(v.cap, lo)}, x.t}
		case *Term:
			hi := c.SLen(v)
			if n.a[2] != nil {
				hi = e.evalTerm(n.a[2], env)
			}
			return lg(c.SSub(v, lo, c.Sub(hi, lo)))
		}
		panic(serr("cannot slice %s", nodeStr(n.a[0])))
	case "ghost":
		return e.evalGhost(n, env)
	case "call":
		return e.evalCall(n, env)
	}
	panic(serr("eval %s", n.k))
}

func (e *Exec) ghostKey(name string) (string, *ufDecl) {
	g := e.w.spec.ghosts[name]
	if g == nil {
		panic(serr("unknown ghost @%s", name))
	}
	return "g:" + name, g
}

// ghost state: first index is a reference (Int), an optional second index of any sort.
func (e *Exec) ghostSort(g *ufDecl) *Sort {
	s := e.sortNamed(g.res)
	for i := len(g.args) - 1; i >= 1; i-- {
		s = e.c.arr(e.sortNamed(g.args[i]), s)
	}
	return s
}
func (e *Exec) gread(st *State, name string, idx ...*Term) *Term {
	k, g := e.ghostKey(name)
	if len(idx) != len(g.args) {
		panic(serr("ghost @%s: %d indices", name, len(idx)))
	}
	t := e.hread(st, k, e.ghostSort(g), idx[0])
	for _, i := range idx[1:] {
		t = e.c.Select(t, i)
	}
	if (name == "released" || name == "given") && t.op == "select" && t.args[0].op == "var" {
		// memory allocated after that state was never put back in it
		if af, ok := e.arrFront[t.args[0]]; ok {
			if v, _, ok := e.c.frontSplit(idx[0]); ok && (v == af.front || e.c.after(v, af.front)) {
				return e.c.F
			}
			if idx[0].ground {
				e.assume(e.c.Imp(e.c.Le(af.front, idx[0]), e.c.Not(t)))
			}
		}
	}
	return t
}
func (e *Exec) gwrite(st *State, name string, v *Term, idx ...*Term) {
	k, g := e.ghostKey(name)
	if len(idx) == 1 {
		e.hwrite(st, k, idx[0], v)
		return
	}
	a := e.hread(st, k, e.ghostSort(g), idx[0])
	if len(idx) == 2 {
		e.hwrite(st, k, idx[0], e.c.Store(a, idx[1], v))
		return
	}
	panic(serr("gwrite"))
}
func (e *Exec) evalGhost(n *Node, env *Env) specVal {
	var ts []*Term
	for _, a := range n.a {
		ts = append(ts, e.evalTerm(a, env))
	}
	return lg(e.gread(env.st, n.s, ts...))
}

func (e *Exec) scalar(v specVal, env *Env) *Term {
	switch x := v.v.(type) {
	case *Term:
		return x
	case *SliceV:
		if isByteSlice(v.t) {
			return e.content(env.st, x)
		}
	case *IfaceV:
		return x.pay
	case nil:
		return e.c.zero
	}
	panic(serr("not a scalar: %T", v.v))
}

func (e *Exec) evalField(x specVal, f string, env *Env) specVal {
	if x.t == nil {
		panic(serr("field %s of untyped value", f))
	}
	if p, ok := x.t.Underlying().(*types.Pointer); ok {
		T := p.Elem()
		s, ok := T.Underlying().(*types.Struct)
		if !ok {
			panic(serr("field %s of %s", f, tkey(x.t)))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				loc := e.fieldLoc(x.v, T, i)
				ft := s.Field(i).Type()
				if isStruct(ft) || isArray(ft) { // keep as location
					return specVal{loc, types.NewPointer(ft)}
				}
				v := e.load(env.st, loc, ft)
				e.facts(env, v, ft)
				return specVal{v, ft}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				ft := s.Field(i).Type()
				if hasField(ft, f) {
					loc := e.fieldLoc(x.v, T, i)
					if isStruct(ft) {
						return e.evalField(specVal{loc, types.NewPointer(ft)}, f, env)
					}
					return e.evalField(specVal{e.load(env.st, loc, ft), ft}, f, env)
				}
			}
		}
		panic(serr("no field %s in %s", f, tkey(T)))
	}
	if s, ok := x.t.Underlying().(*types.Struct); ok {
		sv := x.v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return specVal{sv.fields[i], s.Field(i).Type()}
			}
		}
	}
	panic(serr("no field %s in %s", f, tkey(x.t)))
}

func hasField(t types.Type, f string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return true
		}
	}
	return false
}

func (e *Exec) isNil(x specVal) *Term {
	c := e.c
	switch v := x.v.(type) {
	case *SliceV:
		return c.Eq(v.base, c.zero)
	case *IfaceV:
		return c.Eq(v.tag, c.zero)
	case *Term:
		return c.Eq(v, c.zero)
	case *FuncV:
		return c.F
	case *AddrV:
		return c.F
	}
	panic(serr("nil comparison"))
}

func (e *Exec) specEq(a, b specVal, env *Env) *Term {
	c := e.c
	if a.v == nil {
		return e.isNil(b)
	}
	if b.v == nil {
		return e.isNil(a)
	}
	switch x := a.v.(type) {
	case *Term:
		return c.Eq(x, e.scalar(b, env))
	case *SliceV:
		if y, ok := b.v.(*SliceV); ok {
			return c.And(c.Eq(x.base, y.base), c.Eq(x.off, y.off), c.Eq(x.len, y.len))
		}
		return c.Eq(e.scalar(a, env), e.scalar(b, env))
	case *IfaceV:
		y := b.v.(*IfaceV)
		return c.And(c.Eq(x.tag, y.tag), c.Eq(x.pay, y.pay))
	}
	t := a.t
	if t == nil {
		t = b.t
	}
	return e.eqVal(a.v, b.v, t)
}

func (e *Exec) evalBin(n *Node, env *Env) specVal {
	c := e.c
	switch n.s {
	case "&&":
		a := e.evalBool(n.a[0], env)
		if a.isFalse() {
			return lg(c.F)
		}
		return lg(c.And(a, e.evalBool(n.a[1], env)))
	case "||":
		a := e.evalBool(n.a[0], env)
		if a.isTrue() {
			return lg(c.T)
		}
		return lg(c.Or(a, e.evalBool(n.a[1], env)))
	case "==>":
		a := e.evalBool(n.a[0], env)
		if a.isFalse() {
			return lg(c.T)
		}
		return lg(c.Imp(a, e.evalBool(n.a[1], env)))
	case "<==>":
		return lg(c.Eq(e.evalBool(n.a[0], env), e.evalBool(n.a[1], env)))
	case "==":
		return lg(e.specEq(e.eval(n.a[0], env), e.eval(n.a[1], env), env))
	case "!=":
		return lg(c.Not(e.specEq(e.eval(n.a[0], env), e.eval(n.a[1], env), env)))
	}
	a, b := e.evalTerm(n.a[0], env), e.evalTerm(n.a[1], env)
	switch n.s {
	case "<":
		return lg(c.Lt(a, b))
	case "<=":
		return lg(c.Le(a, b))
	case ">":
		return lg(c.Lt(b, a))
	case ">=":
		return lg(c.Le(b, a))
	case "+":
		if a.sort == sSeq {
			return lg(c.Cat(a, b))
		}
		return lg(c.Add(a, b))
	case "++":
		return lg(c.Cat(a, b))
	case "-":
		return lg(c.Sub(a, b))
	case "*":
		return lg(c.Mul(a, b))
	case "/":
		return lg(c.Div(a, b))
	case "%":
		return lg(c.Mod(a, b))
	}
	panic(serr("operator %s", n.s))
}

func (e *Exec) evalCall(n *Node, env *Env) specVal {
	c := e.c
	arg := func(i int) *Term { return e.evalTerm(n.a[i], env) }
	switch n.s {
	case "len", "cap":
		x := e.eval(n.a[0], env)
		switch v := x.v.(type) {
		case *SliceV:
			if n.s == "cap" {
				return lg(v.cap)
			}
			return lg(v.len)
		case *Term:
			if v.sort == sSeq {
				return lg(c.SLen(v))
			}
			if x.t != nil {
				if _, ok := x.t.Underlying().(*types.Map); ok {
					return lg(e.mapLen(env.st, v, x.t))
				}
				if _, ok := x.t.Underlying().(*types.Chan); ok {
					return lg(e.hread(env.st, "chan#cap", sInt, v))
				}
			}
		case *ArrayV:
			return lg(c.Int(v.n))
		}
		panic(serr("len of %s", nodeStr(n.a[0])))
	case "bytes":
		x := e.eval(n.a[0], env)
		switch v := x.v.(type) {
		case *SliceV:
			return lg(e.content(env.st, v))
		case *Term:
			if v.sort == sSeq {
				return lg(v)
			}
			if p, ok := x.t.Underlying().(*types.Pointer); ok { // pointer to array
				at := p.Elem().Underlying().(*types.Array)
				return lg(c.SArr(e.memArr(env.st, v, byteT, Comp{"", sInt, byteT, ""}), c.zero, c.Int(at.Len())))
			}
		case *ArrayV:
			return lg(c.SArr(v.comps[0], c.zero, c.Int(v.n)))
		}
		panic(serr("bytes of %s", nodeStr(n.a[0])))
	case "base":
		return lg(e.eval(n.a[0], env).v.(*SliceV).base)
	case "off":
		return lg(e.eval(n.a[0], env).v.(*SliceV).off)
	case "memarr": // backing array of component "path"
		x := e.eval(n.a[0], env)
		sv := x.v.(*SliceV)
		et := x.t.Underlying().(*types.Slice).Elem()
		return lg(e.memArr(env.st, sv.base, et, e.comps(et)[0]))
	case "sub":
		return lg(c.SSub(arg(0), arg(1), arg(2)))
	case "rep":
		return lg(c.Rep(arg(0), arg(1)))
	case "zeros":
		return lg(c.Rep(c.zero, arg(0)))
	case "be64", "be16":
		return lg(c.App(n.s, sSeq, arg(0)))
	case "min":
		a, b := arg(0), arg(1)
		return lg(c.Ite(c.Le(a, b), a, b))
	case "max":
		a, b := arg(0), arg(1)
		return lg(c.Ite(c.Le(a, b), b, a))
	case "sent":
		return lg(e.hread(env.st, "g:chan#sent", sInt, arg(0)))
	case "closed":
		return lg(e.hread(env.st, "g:chan#closed", sInt, arg(0)))
	case "chancap":
		return lg(e.hread(env.st, "chan#cap", sInt, arg(0)))
	case "has":
		m := e.eval(n.a[0], env)
		_, h := e.mapGet(env.st, m.v.(*Term), m.t, e.eval(n.a[1], env).v)
		return lg(h)
	case "dom":
		m := e.eval(n.a[0], env)
		return lg(e.mapDom(env.st, m.v.(*Term), m.t))
	case "store":
		return lg(c.Store(arg(0), arg(1), arg(2)))
	case "fresh": // allocated since the pre state
		x := e.eval(n.a[0], env)
		var r *Term
		switch v := x.v.(type) {
		case *SliceV:
			r = v.base
		default:
			r = e.scalar(x, env)
		}
		return lg(c.Le(e.frontTerm(env.pre), r))
	case "allocated": // existed in the pre state
		r := arg(0)
		return lg(c.Lt(r, e.frontTerm(env.pre)))
	case "live": // exists now
		r := arg(0)
		return lg(c.Lt(r, e.frontTerm(env.st)))
	case "is":
		x := e.eval(n.a[0], env).v.(*IfaceV)
		return lg(c.Eq(x.tag, e.namedTag(n.a[1].s)))
	case "as":
		x := e.eval(n.a[0], env).v.(*IfaceV)
		t := e.w.findType(n.a[1].s)
		if t == nil {
			panic(serr("unknown type %q", n.a[1].s))
		}
		v := e.unbox(x, t)
		e.facts(env, v, t)
		return specVal{v, t}
	case "tag":
		return lg(e.eval(n.a[0], env).v.(*IfaceV).tag)
	case "pay":
		return lg(e.eval(n.a[0], env).v.(*IfaceV).pay)
	case "ptr": // view an integer term as a pointer of the named type
		t := e.w.findType(n.a[1].s)
		if t == nil {
			panic(serr("unknown type %q", n.a[1].s))
		}
		return specVal{arg(0), t}
	case "slice": // slice(base, off, len, "[]T")
		t := e.w.findType(n.a[3].s)
		if t == nil {
			panic(serr("unknown type %q", n.a[3].s))
		}
		return specVal{&SliceV{arg(0), arg(1), arg(2), arg(2)}, t}
	case "extglobal": // a dependency's package variable
		j := strings.LastIndexByte(n.a[0].s, '.')
		pk := e.w.allPkgs[n.a[0].s[:j]]
		if pk == nil || pk.Scope().Lookup(n.a[0].s[j+1:]) == nil {
			panic(serr("unknown variable %s", n.a[0].s))
		}
		T := pk.Scope().Lookup(n.a[0].s[j+1:]).Type()
		v, ok := e.extGlobal(n.a[0].s, T)
		if !ok {
			panic(serr("cannot use variable %s", n.a[0].s))
		}
		return specVal{v, T}
	case "typed": // typed(x, "T"): x lies in the range of integer type T
		t := e.w.findType(n.a[1].s)
		lo, hi, _ := intRange(t)
		x := arg(0)
		return lg(c.And(c.Le(c.Big(lo), x), c.Le(x, c.Big(hi))))
	case "pow2": // 2^n for 0 <= n < 63
		t := c.zero
		for k := uint(63); k > 0; k-- {
			t = c.Ite(c.Eq(arg(0), c.Int(int64(k-1))), c.Big(pow2(k-1)), t)
		}
		return lg(t)
	case "isfn": // static function value
		x := e.eval(n.a[0], env)
		f, ok := x.v.(*FuncV)
		if !ok || f.fn == nil {
			return lg(c.F)
		}
		return lg(c.Bool(fname(f.fn) == n.a[1].s || strings.HasPrefix(fname(f.fn), n.a[1].s+"$")))
	case "pureIface": // value of a pure interface method: pureIface(x, "Name")
		x := e.eval(n.a[0], env).v.(*IfaceV)
		return e.pureMethod(x, n.a[1].s)
	case "sarr":
		return lg(c.SArr(arg(0), arg(1), arg(2)))
	case "addr":
		// reference of an embedded struct value
		return lg(arg(0))
	case "deref":
		x := e.eval(n.a[0], env)
		T := deref(x.t)
		return specVal{e.load(env.st, x.v, T), T}
	case "cell": // contents of a pointed-to scalar
		x := e.eval(n.a[0], env)
		T := deref(x.t)
		v := e.load(env.st, x.v, T)
		e.facts(env, v, T)
		return specVal{v, T}
	case "global": // reference of a global
		g := e.w.globalNamed(n.a[0].s)
		if g == nil {
			panic(serr("unknown global %s", n.a[0].s))
		}
		return specVal{e.globalRef(g), g.Type()}
	}
	if d, ok := e.w.spec.defs[n.s]; ok {
		if len(d.params) != len(n.a) {
			panic(serr("%s: %d arguments, want %d", n.s, len(n.a), len(d.params)))
		}
		ev := &Env{st: env.st, pre: env.pre, vars: map[string]specVal{}, holes: env.holes, quant: env.quant, depth: env.depth + 1}
		if ev.depth > 40 {
			panic(serr("recursive definition %s", n.s))
		}
		for i, p := range d.params {
			ev.vars[p] = e.eval(n.a[i], env)
		}
		return e.eval(d.body, ev)
	}
	if u, ok := e.w.spec.ufs[n.s]; ok {
		if len(u.args) != len(n.a) {
			panic(serr("%s: %d arguments, want %d", n.s, len(n.a), len(u.args)))
		}
		var ts []*Term
		for i := range n.a {
			t := arg(i)
			if want := e.sortNamed(u.args[i]); t.sort != want {
				panic(serr("%s: argument %d has sort %s, want %s", n.s, i, t.sort.name, want.name))
			}
			ts = append(ts, t)
		}
		t := c.App(n.s, e.sortNamed(u.res), ts...)
		return lg(t)
	}
	panic(serr("unknown function %q", n.s))
}

// namedTag: interface tag of a Go type, or of an opaque model type ("!name").
func (e *Exec) namedTag(n string) *Term {
	if strings.HasPrefix(n, "!") {
		return e.c.Int(int64(e.typeID(n, nil)))
	}
	t := e.w.findType(n)
	if t == nil {
		panic(serr("unknown type %q", n))
	}
	return e.tagOf(t)
}

// uf applies a declared spec function.
func (e *Exec) uf(name string, args ...*Term) *Term {
	u := e.w.spec.ufs[name]
	if u == nil {
		panic(serr("undeclared uf %s", name))
	}
	return e.c.App(name, e.sortNamed(u.res), args...)
}

// axiomHooks emits axioms when the functions they talk about are first used.
func (e *Exec) axiomHooks(s *Solver, n string) {
	c := e.c
	ax := func(f string, a ...interface{}) { s.axiom(fmt.Sprintf(f, a...)) }
	switch {
	case n == "be64" || n == "be16" || n == "unbe64" || n == "unbe16":
		n = strings.TrimPrefix(n, "un")
		w := 8
		if n == "be16" {
			w = 2
		}
		if _, ok := c.ufs[n]; !ok {
			c.ufs[n] = ufSig{args: []*Sort{sInt}, res: sSeq}
		}
		if _, ok := c.ufs["un"+n]; !ok {
			c.ufs["un"+n] = ufSig{args: []*Sort{sSeq}, res: sInt}
		}
		if s.decl["pair:"+n] {
			break
		}
		s.decl["pair:"+n] = true
		for d, x := range map[string]string{n: "(Int) Sq", "un" + n: "(Sq) Int"} {
			if !s.decl[d] {
				s.decl[d] = true
				s.declare(fmt.Sprintf("(declare-fun %s %s)", d, x))
			}
		}
		mx := pow2(uint(8 * w))
		ax("(forall ((n Int)) (! (= (s.len (%s n)) %d) :pattern ((%s n))))", n, w, n)
		ax("(forall ((n Int)) (! (=> (and (<= 0 n) (< n %s)) (= (un%s (%s n)) n)) :pattern ((%s n))))", mx, n, n, n)
		sum := ""
		for i := 0; i < w; i++ {
			ax("(forall ((n Int)) (! (=> (and (<= 0 n) (< n %s)) (= (s.at (%s n) %d) (mod (div n %s) 256))) :pattern ((s.at (%s n) %d))))", mx, n, i, pow2(uint(8*(w-1-i))), n, i)
			sum += fmt.Sprintf(" (* %s (s.at q %d))", pow2(uint(8*(w-1-i))), i)
		}
		ax("(forall ((q Sq)) (! (=> (= (s.len q) %d) (= (un%s q) (+%s))) :pattern ((un%s q))))", w, n, sum, n)
	case strings.HasPrefix(n, "emb!"):
		k := fmt.Sprint(len(n)) + n
		id := e.kindID(n)
		inv := "inv!" + n
		s.declare(fmt.Sprintf("(declare-fun %s (Int) Int)", q(inv)))
		e.kindDecl(s)
		_ = k
		ax("(forall ((r Int)) (! (and (= (%s (%s r)) r) (= (kind! (%s r)) %d) (< (%s r) 0) (= (root (%s r)) (root r))) :pattern ((%s r))))", q(inv), q(n), q(n), id, q(n), q(n), q(n))
	case strings.HasPrefix(n, "elem!"):
		id := e.kindID(n)
		s.declare(fmt.Sprintf("(declare-fun %s (Int) Int)", q("invb!"+n)))
		s.declare(fmt.Sprintf("(declare-fun %s (Int) Int)", q("invi!"+n)))
		e.kindDecl(s)
		ax("(forall ((r Int) (i Int)) (! (and (= (%s (%s r i)) r) (= (%s (%s r i)) i) (= (kind! (%s r i)) %d) (< (%s r i) 0) (= (root (%s r i)) (root r))) :pattern ((%s r i))))", q("invb!"+n), q(n), q("invi!"+n), q(n), q(n), id, q(n), q(n), q(n))
	case n == "root":
		ax("(forall ((r Int)) (! (=> (<= 0 r) (= (root r) r)) :pattern ((root r))))")
	case strings.HasPrefix(n, "box!"):
		b := e.boxes[n]
		sg := c.ufs[n]
		var bs, vs []string
		for i, a := range sg.args {
			bs = append(bs, fmt.Sprintf("(x%d %s)", i, a.name))
			vs = append(vs, fmt.Sprintf("x%d", i))
		}
		call := "(" + q(n) + " " + strings.Join(vs, " ") + ")"
		for i, a := range sg.args {
			un := fmt.Sprintf("%s!%d", b.unbox, i)
			if _, ok := c.ufs[un]; !ok {
				c.ufs[un] = ufSig{args: []*Sort{sInt}, res: a}
			}
			if !s.decl[un] {
				s.decl[un] = true
				s.declare(fmt.Sprintf("(declare-fun %s (Int) %s)", q(un), a.name))
			}
			ax("(forall (%s) (! (= (%s %s) x%d) :pattern (%s)))", strings.Join(bs, " "), q(un), call, i, call)
		}
		ax("(forall (%s) (! (< %s 0) :pattern (%s)))", strings.Join(bs, " "), call, call)
	case strings.HasPrefix(n, "addr!"):
		s.axiom(fmt.Sprintf("(forall (%s) (! (< %s 0) :pattern (%s)))", bindsOf(c.ufs[n]), callOf(n, c.ufs[n]), callOf(n, c.ufs[n])))
	}
	// spec axioms whose trigger functions are all declared
	for i, a := range e.axTerms {
		if e.axDone[i] || !a.ufs[n] {
			continue
		}
		all := true
		for u := range a.need {
			if !s.decl[u] {
				all = false
			}
		}
		if all {
			e.axDone[i] = true
			s.axiom(s.str(a.t))
			e.axUsed[a.src] = true
		}
	}
}

func bindsOf(sg ufSig) string {
	var bs []string
	for i, a := range sg.args {
		bs = append(bs, fmt.Sprintf("(x%d %s)", i, a.name))
	}
	return strings.Join(bs, " ")
}
func callOf(n string, sg ufSig) string {
	var vs []string
	for i := range sg.args {
		vs = append(vs, fmt.Sprintf("x%d", i))
	}
	return "(" + q(n) + " " + strings.Join(vs, " ") + ")"
}

func (e *Exec) kindDecl(s *Solver) {
	if !s.decl["kind!"] {
		s.decl["kind!"] = true
		s.declare("(declare-fun kind! (Int) Int)")
	}
	if !s.decl["root"] {
		s.decl["root"] = true
		e.c.ufs["root"] = ufSig{args: []*Sort{sInt}, res: sInt}
		s.declare("(declare-fun root (Int) Int)")
		s.axiom("(forall ((r Int)) (! (=> (<= 0 r) (= (root r) r)) :pattern ((root r))))")
	}
}
func (e *Exec) kindID(n string) int {
	if id, ok := e.kinds[n]; ok {
		return id
	}
	id := len(e.kinds) + 1
	e.kinds[n] = id
	return id
}

type axTerm struct {
	t    *Term
	ufs  map[string]bool // functions of the trigger
	need map[string]bool
	src  string
}

// loadAxioms evaluates the axioms of the contract files.
func (e *Exec) loadAxioms() {
	st := &State{heap: map[string]*Term{}, front: e.front0, epoch: 1, ghost: map[string]*Term{}}
	env := &Env{st: st, pre: st, vars: map[string]specVal{}}
	for _, a := range e.w.spec.axioms {
		if len(a.tags) > 0 && !e.interested(a.tags) {
			continue
		}
		t := e.evalBool(a.n, env)
		for _, p := range flattenAnd(t) {
			at := axTerm{t: p, ufs: map[string]bool{}, need: map[string]bool{}, src: a.src}
			var trs [][]*Term
			if p.op == "forall" {
				trs = p.trigs
				if len(trs) == 0 {
					trs = autoTrig(p)
				}
			}
			if len(trs) == 0 {
				trs = [][]*Term{{p}}
			}
			for _, tr := range trs {
				for _, x := range tr {
					collectUFs(x, at.need)
				}
				break
			}
			for _, tr := range trs {
				for _, x := range tr {
					collectUFs(x, at.ufs)
				}
			}
			for u := range at.need {
				if builtinUF[u] {
					delete(at.need, u)
				}
			}
			if len(at.need) == 0 {
				e.s.axiom(e.s.str(p))
				e.axUsed[a.src] = true
				continue
			}
			e.axTerms = append(e.axTerms, at)
		}
	}
	e.axDone = make([]bool, len(e.axTerms))
}

var builtinUF = map[string]bool{"s.len": true, "s.at": true, "s.cat": true, "s.sub": true, "s.rep": true, "s.arr": true, "a.spl": true}

func flattenAnd(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, flattenAnd(a)...)
		}
		return out
	}
	return []*Term{t}
}

func collectUFs(t *Term, m map[string]bool) {
	if t.op == "app" {
		m[t.name] = true
	}
	for _, a := range t.args {
		collectUFs(a, m)
	}
}

var bigZero = big.NewInt(0)
