package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic Go values ----

type Val interface{}

type SliceV struct{ base, off, len, cap *Term }
type IfaceV struct{ tag, pay *Term }
type StructV struct {
	typ    types.Type
	fields []Val
}
type ArrayV struct { // array value: one total array per element component
	elem  types.Type
	comps []*Term
	n     int64
}
type TupleV []Val
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	id    int
}

// AddrV: address of a scalar-like location.
// elem: location inside element memory: keys memKey(elemType)+path, at base/idx
// otherwise field of object ref: key prefix
type AddrV struct {
	key  string // heap key prefix
	ref  *Term
	idx  *Term // non-nil: element memory
	typ  types.Type
	root string // struct type key for guard checks: "pkg.T.field"
	bptr *Term  // object ref for guard checks
}
type IterV struct {
	id   int
	m    *Term // map ref or nil
	typ  types.Type
	str  *Term
	vkey string
}
type builtinV struct{ name string }

type Comp struct {
	path string
	sort *Sort
	typ  types.Type
	role string // "", "base","off","len","cap","tag","pay"
}

func (e *Exec) under(t types.Type) types.Type { return t.Underlying() }

// comps lists the scalar components of a type.
func (e *Exec) comps(t types.Type) []Comp {
	k := tkey(t)
	if c, ok := e.compCache[k]; ok {
		return c
	}
	var out []Comp
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []Comp{{"", sBool, t, ""}}
		case u.Info()&types.IsString != 0:
			out = []Comp{{"", sSeq, t, ""}}
		default:
			out = []Comp{{"", sInt, t, ""}}
		}
	case *types.Slice:
		out = []Comp{{"#base", sInt, t, "base"}, {"#off", sInt, t, "off"}, {"#len", sInt, t, "len"}, {"#cap", sInt, t, "cap"}}
	case *types.Interface:
		out = []Comp{{"#tag", sInt, t, "tag"}, {"#pay", sInt, t, "pay"}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range e.comps(u.Field(i).Type()) {
				out = append(out, Comp{"." + u.Field(i).Name() + c.path, c.sort, c.typ, c.role})
			}
		}
	case *types.Array:
		for _, c := range e.comps(u.Elem()) {
			out = append(out, Comp{"[]" + c.path, e.c.arr(sInt, c.sort), c.typ, "arr"})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, c := range e.comps(u.At(i).Type()) {
				out = append(out, Comp{fmt.Sprintf(".%d%s", i, c.path), c.sort, c.typ, c.role})
			}
		}
	default: // pointer, map, chan, func, named others
		out = []Comp{{"", sInt, t, ""}}
	}
	e.compCache[k] = out
	return out
}

var tkeyCache sync.Map
var tokByte = regexp.MustCompile(`\buint8\b`)
var tokOS = regexp.MustCompile(`\bos\.(FileInfo|FileMode|DirEntry)\b`)

// tkey: canonical name of a type (aliases resolved, the module path dropped).
func tkey(t types.Type) string {
	if v, ok := tkeyCache.Load(t); ok {
		return v.(string)
	}
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string {
		s := p.Path()
		s = strings.TrimPrefix(s, "github.com/flawedmatrix/gocryptsftp/")
		s = strings.TrimPrefix(s, "gocrypt/")
		return s
	})
	s = tokByte.ReplaceAllString(s, "byte")
	s = tokOS.ReplaceAllString(s, "io/fs.$1")
	s = strings.ReplaceAll(strings.ReplaceAll(s, "interface {}", "any"), "interface{}", "any")
	tkeyCache.Store(t, s)
	return s
}

func (e *Exec) flatten(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.base, x.off, x.len, x.cap}
	case *IfaceV:
		return []*Term{x.tag, x.pay}
	case *StructV:
		st := t.Underlying().(*types.Struct)
		var out []*Term
		for i, f := range x.fields {
			out = append(out, e.flatten(f, st.Field(i).Type())...)
		}
		return out
	case *ArrayV:
		return x.comps
	case *FuncV:
		return []*Term{e.funcID(x)}
	case *AddrV:
		return []*Term{e.addrTerm(x)}
	case TupleV:
		tt := t.(*types.Tuple)
		var out []*Term
		for i, f := range x {
			out = append(out, e.flatten(f, tt.At(i).Type())...)
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("flatten %T", v)))
}

func (e *Exec) unflatten(ts []*Term, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}
	case *types.Interface:
		return &IfaceV{ts[0], ts[1]}
	case *types.Struct:
		s := &StructV{typ: t}
		i := 0
		for f := 0; f < u.NumFields(); f++ {
			n := len(e.comps(u.Field(f).Type()))
			s.fields = append(s.fields, e.unflatten(ts[i:i+n], u.Field(f).Type()))
			i += n
		}
		return s
	case *types.Array:
		return &ArrayV{elem: u.Elem(), comps: append([]*Term{}, ts...), n: u.Len()}
	case *types.Tuple:
		var tv TupleV
		i := 0
		for f := 0; f < u.Len(); f++ {
			n := len(e.comps(u.At(f).Type()))
			tv = append(tv, e.unflatten(ts[i:i+n], u.At(f).Type()))
			i += n
		}
		return tv
	case *types.Signature:
		if ts[0].isInt() {
			if f, ok := e.funcs[int(ts[0].val.Int64())]; ok {
				return f
			}
		}
		return ts[0]
	}
	return ts[0]
}

func (e *Exec) funcID(f *FuncV) *Term {
	if f.id == 0 {
		e.nfunc++
		f.id = -1000000 - e.nfunc
		e.funcs[f.id] = f
	}
	return e.c.Int(int64(f.id))
}

// addrTerm encodes an escaping interior pointer.
func (e *Exec) addrTerm(a *AddrV) *Term {
	var t *Term
	if a.idx != nil {
		t = e.c.App("addr!"+a.key, sInt, a.ref, a.idx)
	} else {
		t = e.c.App("addr!"+a.key, sInt, a.ref)
	}
	e.addrs[t] = a
	return t
}

func (e *Exec) zero(t types.Type) Val {
	cs := e.comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		ts[i] = e.zeroSort(c.sort)
	}
	return e.unflatten(ts, t)
}
func (e *Exec) zeroSort(s *Sort) *Term {
	switch s.kind {
	case 'i':
		return e.c.zero
	case 'b':
		return e.c.F
	case 's':
		return e.c.Empty()
	}
	return e.c.ConstArr(s.key, e.zeroSort(s.elem))
}

var two = big.NewInt(2)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// intRange returns the value range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
}
func intBits(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

var maxLen = pow2(48) // assumed upper bound of any object size

// typeFacts asserts what holds for any value of the type, given fresh components.
func (e *Exec) typeFacts(st *State, v Val, t types.Type) {
	c := e.c
	switch x := v.(type) {
	case *Term:
		if lo, hi, ok := intRange(t); ok {
			e.setRange(x, lo, hi)
			return
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			e.oldRef(st, x)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok && e.embeddable(p.Elem()) {
					e.assume(c.Lt(c.App("root", sInt, x), e.frontTerm(st)))
				}
			}
		case *types.Signature:
			// opaque
		}
	case *SliceV:
		ml := c.Big(maxLen)
		if x.len.op == "int" && x.cap.op == "int" {
			return
		}
		MarkNonneg(x.len)
		MarkNonneg(x.cap)
		MarkNonneg(x.off)
		e.setRange(x.len, big.NewInt(0), maxLen)
		e.setRange(x.cap, big.NewInt(0), maxLen)
		e.setRange(x.off, big.NewInt(0), maxLen)
		e.assume(c.And(c.Le(x.len, x.cap), c.Le(c.Add(x.off, x.cap), ml)))
		e.assume(c.Imp(c.Eq(x.base, c.zero), c.Eq(x.cap, c.zero)))
		e.oldRef(st, x.base)
		e.assume(c.Le(c.zero, x.base))
	case *IfaceV:
		if !x.tag.isInt() {
			e.assume(c.And(c.Le(c.zero, x.tag), c.Imp(c.Eq(x.tag, c.zero), c.Eq(x.pay, c.zero))))
		}
		e.oldRef(st, x.pay)
	case *StructV:
		s := t.Underlying().(*types.Struct)
		for i, f := range x.fields {
			e.typeFacts(st, f, s.Field(i).Type())
		}
	case TupleV:
		tt := t.(*types.Tuple)
		for i, f := range x {
			e.typeFacts(st, f, tt.At(i).Type())
		}
	}
}

// oldRef: x denotes something already allocated.
func (e *Exec) oldRef(st *State, x *Term) {
	if x.isInt() || e.c.frontierOf(x) > 0 {
		return
	}
	bound := e.frontTerm(st)
	ep := st.epoch
	if st.frontK > 0 {
		ep++
	}
	// a pointer read at an old index out of an array that existed at an earlier
	// frontier is below that frontier
	if x.op == "select" && x.args[0].op == "var" {
		if af, ok := e.arrFront[x.args[0]]; ok && e.c.below(x.args[1], af.epoch) {
			bound, ep = af.front, af.epoch
		}
	}
	if x.op == "var" || x.op == "select" || x.op == "app" {
		if x.epoch <= 0 || ep < x.epoch {
			x.epoch = ep
		}
	}
	e.assume(e.c.Lt(x, bound))
}

type arrFront struct {
	front *Term
	epoch int
}

// freshArr: an array variable whose pointers are below the current frontier.
func (e *Exec) freshArr(st *State, hint string, s *Sort) *Term {
	if st.frontK > 0 {
		e.newFrontier(st)
	}
	v := e.c.Fresh(hint, s)
	e.arrFront[v] = arrFront{st.front, st.epoch}
	return v
}

func (e *Exec) frontTerm(st *State) *Term { return e.c.AddI(st.front, int64(st.frontK)) }

func (e *Exec) setRange(x *Term, lo, hi *big.Int) {
	if x.isInt() {
		return
	}
	if x.op == "var" || x.op == "select" || x.op == "app" {
		e.rng[x] = interval{lo, hi}
	}
	e.assume(e.c.And(e.c.Le(e.c.Big(lo), x), e.c.Le(x, e.c.Big(hi))))
}

type interval struct{ lo, hi *big.Int }

// ival computes a cheap interval for t, ok=false if unknown.
func (e *Exec) ival(t *Term) (interval, bool) {
	if r, ok := e.rng[t]; ok {
		return r, true
	}
	switch t.op {
	case "int":
		return interval{t.val, t.val}, true
	case "+":
		lo, hi := new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			r, ok := e.ival(a)
			if !ok {
				return interval{}, false
			}
			k := t.coefs[i]
			x, y := new(big.Int).Mul(r.lo, k), new(big.Int).Mul(r.hi, k)
			if k.Sign() < 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		return interval{lo, hi}, true
	case "mod":
		if t.args[1].isInt() && t.args[1].val.Sign() > 0 {
			return interval{big.NewInt(0), new(big.Int).Sub(t.args[1].val, big.NewInt(1))}, true
		}
	case "div":
		if r, ok := e.ival(t.args[0]); ok && t.args[1].isInt() && t.args[1].val.Sign() > 0 {
			return interval{new(big.Int).Div(r.lo, t.args[1].val), new(big.Int).Div(r.hi, t.args[1].val)}, true
		}
	case "ite":
		a, ok1 := e.ival(t.args[1])
		b, ok2 := e.ival(t.args[2])
		if ok1 && ok2 {
			lo, hi := a.lo, a.hi
			if b.lo.Cmp(lo) < 0 {
				lo = b.lo
			}
			if b.hi.Cmp(hi) > 0 {
				hi = b.hi
			}
			return interval{lo, hi}, true
		}
	case "app":
		if t.name == "s.len" {
			return interval{big.NewInt(0), maxLen}, true
		}
	}
	return interval{}, false
}

// wrap brings an exact integer result into the range of type t, with Go's
// wrap-around semantics when it may not fit.
func (e *Exec) wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok || x.isInt() && x.val.Cmp(lo) >= 0 && x.val.Cmp(hi) <= 0 {
		return x
	}
	if r, ok := e.ival(x); ok && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return x
	}
	c := e.c
	if !x.isInt() && x.ground {
		in := c.And(c.Le(c.Big(lo), x), c.Le(x, c.Big(hi)))
		if e.valid(in) {
			return x
		}
	}
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, big.NewInt(1))
	if lo.Sign() == 0 {
		return c.Mod(x, c.Big(n))
	}
	return c.Add(c.Mod(c.Sub(x, c.Big(lo)), c.Big(n)), c.Big(lo))
}

func (e *Exec) freshVal(st *State, t types.Type, hint string) Val {
	cs := e.comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		ts[i] = e.c.Fresh(hint+c.path, c.sort)
	}
	v := e.unflatten(ts, t)
	e.typeFacts(st, v, t)
	return v
}

// ---- state and heap ----

type State struct {
	heap   map[string]*Term
	front  *Term
	frontK int
	epoch  int
	ghost  map[string]*Term
	events []string
	gen    int // generation of heap keys not touched so far
	genEp  arrFront
	secret []*Term // byte memory that held secret material
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)+4), front: s.front, frontK: s.frontK, epoch: s.epoch, ghost: make(map[string]*Term, len(s.ghost)+2), events: s.events[:len(s.events):len(s.events)], gen: s.gen, genEp: s.genEp, secret: s.secret}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (e *Exec) alloc(st *State) *Term {
	t := e.frontTerm(st)
	st.frontK++
	return t
}

// newFrontier: an unknown number of allocations happened.
func (e *Exec) newFrontier(st *State) {
	old := e.frontTerm(st)
	e.c.fresh++
	v := e.c.Var(fmt.Sprintf("A!%d", e.c.fresh), sInt)
	st.epoch++
	e.c.epochs[v] = st.epoch
	e.c.prev[v] = old
	st.front, st.frontK = v, 0
	e.assume(e.c.Le(old, v))
}

func (e *Exec) hget(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if st.gen > 0 {
		t := e.c.Var(fmt.Sprintf("H!%d!%s", st.gen, sanitize(key)), e.c.arr(sInt, s))
		if _, ok := e.arrFront[t]; !ok {
			e.arrFront[t] = st.genEp
		}
		return t
	}
	t := e.c.Var("H!"+sanitize(key), e.c.arr(sInt, s))
	if _, ok := e.arrFront[t]; !ok {
		e.arrFront[t] = arrFront{e.front0, 1}
	}
	return t
}

func (e *Exec) hread(st *State, key string, s *Sort, ref *Term) *Term {
	t := e.c.Select(e.hget(st, key, s), ref)
	if ref.isInt() && t.op == "select" && t.args[0].op == "var" {
		if v := e.initVals[key][ref.val.Int64()]; v != nil {
			return v
		}
	}
	return t
}
func (e *Exec) hwrite(st *State, key string, ref, v *Term) {
	if len(e.secrets)+len(e.secretUF) > 0 && key == memKey(byteT) && !hasElem(st.secret, ref) && e.isSecret(v) {
		st.secret = append(st.secret[:len(st.secret):len(st.secret)], ref)
	}
	st.heap[key] = e.c.Store(e.hget(st, key, v.sort), ref, v)
}

// emb: reference of a struct or array nested in the object ref at field key.
func (e *Exec) emb(ref *Term, key string) *Term {
	t := e.c.App("emb!"+key, sInt, ref)
	e.embKeys["emb!"+sanitize(key)] = true
	return t
}

// elemRef: reference of an object-mode slice element.
func (e *Exec) elemRef(base, idx *Term, et types.Type) *Term {
	n := "elem!" + tkey(et)
	return e.c.App(n, sInt, base, idx)
}

// object-mode element types: structs that hold locks (cannot be copied).
func (e *Exec) objMode(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch tkey(s.Field(i).Type()) {
		case "sync.Mutex", "sync.RWMutex", "sync.Cond", "sync.WaitGroup":
			return true
		}
		if e.objMode(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (e *Exec) embeddable(t types.Type) bool { return e.w.embTypes[tkey(t)] }

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

// fieldLoc computes the location of field i of struct type T at pointer p.
func (e *Exec) fieldLoc(p Val, T types.Type, i int) Val {
	s := T.Underlying().(*types.Struct)
	f := s.Field(i)
	switch x := p.(type) {
	case *Term:
		if a, ok := e.addrs[x]; ok {
			return e.fieldLoc(a, T, i)
		}
		key := tkey(T) + "." + f.Name()
		if isStruct(f.Type()) || isArray(f.Type()) {
			return e.emb(x, key)
		}
		return &AddrV{key: key, ref: x, typ: f.Type(), root: key, bptr: x}
	case *AddrV:
		if x.idx == nil {
			panic(unsupported("field of scalar location " + x.key))
		}
		return &AddrV{key: x.key + "." + f.Name(), ref: x.ref, idx: x.idx, typ: f.Type()}
	}
	panic(unsupported(fmt.Sprintf("fieldLoc %T", p)))
}

func memKey(et types.Type) string { return "mem:" + tkey(et) }

// load reads a value of type T at location p.
func (e *Exec) load(st *State, p Val, T types.Type) Val {
	switch x := p.(type) {
	case *AddrV:
		cs := e.comps(T)
		ts := make([]*Term, len(cs))
		for i, c := range cs {
			if x.idx != nil {
				m := e.hread(st, x.key+c.path, e.c.arr(sInt, c.sort), x.ref)
				ts[i] = e.c.Select(m, x.idx)
			} else {
				ts[i] = e.hread(st, x.key+c.path, c.sort, x.ref)
			}
		}
		return e.unflatten(ts, T)
	case *Term:
		if a, ok := e.addrs[x]; ok {
			return e.load(st, a, T)
		}
		if s, ok := T.Underlying().(*types.Struct); ok {
			v := &StructV{typ: T}
			for i := 0; i < s.NumFields(); i++ {
				v.fields = append(v.fields, e.load(st, e.fieldLoc(x, T, i), s.Field(i).Type()))
			}
			return v
		}
		if a, ok := T.Underlying().(*types.Array); ok {
			av := &ArrayV{elem: a.Elem(), n: a.Len()}
			for _, c := range e.comps(a.Elem()) {
				av.comps = append(av.comps, e.hread(st, memKey(a.Elem())+c.path, e.c.arr(sInt, c.sort), x))
			}
			return av
		}
		return e.load(st, &AddrV{key: "cell:" + tkey(T), ref: x, typ: T}, T)
	}
	panic(unsupported(fmt.Sprintf("load %T", p)))
}

func (e *Exec) store(st *State, p Val, T types.Type, v Val) {
	switch x := p.(type) {
	case *AddrV:
		cs := e.comps(T)
		ts := e.flatten(v, T)
		for i, c := range cs {
			if x.idx != nil {
				m := e.hread(st, x.key+c.path, e.c.arr(sInt, c.sort), x.ref)
				e.hwrite(st, x.key+c.path, x.ref, e.c.Store(m, x.idx, ts[i]))
			} else {
				e.hwrite(st, x.key+c.path, x.ref, ts[i])
			}
		}
		return
	case *Term:
		if a, ok := e.addrs[x]; ok {
			e.store(st, a, T, v)
			return
		}
		if s, ok := T.Underlying().(*types.Struct); ok {
			sv := v.(*StructV)
			for i := 0; i < s.NumFields(); i++ {
				e.store(st, e.fieldLoc(x, T, i), s.Field(i).Type(), sv.fields[i])
			}
			return
		}
		if a, ok := T.Underlying().(*types.Array); ok {
			av := v.(*ArrayV)
			for i, c := range e.comps(a.Elem()) {
				e.hwrite(st, memKey(a.Elem())+c.path, x, av.comps[i])
			}
			return
		}
		e.store(st, &AddrV{key: "cell:" + tkey(T), ref: x, typ: T}, T, v)
		return
	}
	panic(unsupported(fmt.Sprintf("store %T", p)))
}

// ---- slices ----

// memArr reads the backing array (component c) of a slice.
func (e *Exec) memArr(st *State, base *Term, et types.Type, c Comp) *Term {
	return e.hread(st, memKey(et)+c.path, e.c.arr(sInt, c.sort), base)
}
func (e *Exec) setMemArr(st *State, base *Term, et types.Type, c Comp, a *Term) {
	e.hwrite(st, memKey(et)+c.path, base, a)
}

// isSecret: the term mentions secret material.
func (e *Exec) isSecret(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if hasElem(e.secrets, t) || t.op == "app" && e.secretUF[t.name] {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

var byteT = types.Typ[types.Uint8]
var intT = types.Typ[types.Int]
var boolT = types.Typ[types.Bool]
var stringT = types.Typ[types.String]
var byteSliceT = types.NewSlice(byteT)
var errorT = types.Universe.Lookup("error").Type()

// content of a byte slice as a sequence
func (e *Exec) content(st *State, s *SliceV) *Term {
	if s.len.isInt() && s.len.val.Sign() == 0 {
		return e.c.Empty()
	}
	return e.c.SArr(e.memArr(st, s.base, byteT, Comp{"", sInt, byteT, ""}), s.off, s.len)
}
func (e *Exec) setContent(st *State, s *SliceV, at *Term, seq *Term) {
	cp := Comp{"", sInt, byteT, ""}
	a := e.memArr(st, s.base, byteT, cp)
	e.setMemArr(st, s.base, byteT, cp, e.c.Splice(a, e.c.Add(s.off, at), seq))
}

// makeBytes allocates a byte slice with the given content.
func (e *Exec) makeBytes(st *State, seq *Term) *SliceV {
	r := e.alloc(st)
	n := e.c.SLen(seq)
	cp := Comp{"", sInt, byteT, ""}
	e.setMemArr(st, r, byteT, cp, e.c.Splice(e.c.ConstArr(sInt, e.c.zero), e.c.zero, seq))
	e.notReleased(st, r)
	return &SliceV{r, e.c.zero, n, n}
}

// ---- interfaces ----

func (e *Exec) tagOf(t types.Type) *Term {
	k := tkey(t)
	return e.c.Int(int64(e.typeID(k, t)))
}
func ptrShaped(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// box converts a concrete value to an interface value.
func (e *Exec) box(st *State, v Val, t types.Type) *IfaceV {
	ts := e.flatten(v, t)
	if ptrShaped(t) {
		return &IfaceV{e.tagOf(t), ts[0]}
	}
	pay := e.boxPay(ts, t)
	return &IfaceV{e.tagOf(t), pay}
}
func (e *Exec) boxPay(ts []*Term, t types.Type) *Term {
	if len(ts) == 0 {
		return e.c.zero
	}
	pay := e.c.App("box!"+tkey(t), sInt, ts...)
	e.addBox("box!"+sanitize(tkey(t)), "unbox!"+sanitize(tkey(t)), len(ts))
	return pay
}
func (e *Exec) unbox(i *IfaceV, t types.Type) Val {
	if ptrShaped(t) {
		return e.unflatten([]*Term{i.pay}, t)
	}
	cs := e.comps(t)
	ts := make([]*Term, len(cs))
	for k, c := range cs {
		if i.pay.op == "app" && i.pay.name == "box!"+sanitize(tkey(t)) {
			ts[k] = i.pay.args[k]
		} else {
			ts[k] = e.c.App(fmt.Sprintf("unbox!%s!%d", tkey(t), k), c.sort, i.pay)
		}
	}
	return e.unflatten(ts, t)
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

// notReleased: r was just allocated.
func (e *Exec) notReleased(st *State, r *Term) {
	if _, touched := st.heap["g:released"]; touched {
		e.assume(e.c.Not(e.c.Select(st.heap["g:released"], r)))
	}
}
