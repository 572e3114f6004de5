package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- sorts ----

type Sort struct {
	name string // SMT-LIB name
	kind byte   // 'i' int, 'b' bool, 's' seq, 'a' array
	key  *Sort
	elem *Sort
}

var (
	sInt  = &Sort{name: "Int", kind: 'i'}
	sBool = &Sort{name: "Bool", kind: 'b'}
	sSeq  = &Sort{name: "Sq", kind: 's'} // finite sequence of Int (strings, byte contents)
)

// ---- terms (hash-consed per Ctx) ----

type Term struct {
	id     int
	op     string // "int","true","false","var","bvar","app","+","*","div","mod","ite","=","<=","and","or","not","select","store","forall","exists","constarr"
	name   string
	val    *big.Int
	args   []*Term
	sort   *Sort
	coefs  []*big.Int // for "+": coefficients of args; val is the constant
	binds  []*Term    // for quantifiers
	trigs  [][]*Term
	ground bool // no bound variables
	depth  int
	epoch  int // for pointer-like terms: known to be < frontier of this epoch (0: unknown)
}

type Ctx struct {
	tab    map[string]*Term
	terms  []*Term
	n      int
	fresh  int
	sorts  map[string]*Sort
	T, F   *Term
	zero   *Term
	one    *Term
	ufs    map[string]ufSig
	lits   map[string]*Term // string literals
	litOf  map[*Term]string
	embs   map[string]int
	epochs map[*Term]int   // frontier vars -> epoch
	prev   map[*Term]*Term // frontier var -> end of the allocations before it
	axSeen map[string]bool
	newAx  []*Term // ground axiom instances produced while building terms
}

type ufSig struct {
	args []*Sort
	res  *Sort
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, ufs: map[string]ufSig{}, lits: map[string]*Term{}, litOf: map[*Term]string{}, embs: map[string]int{}, epochs: map[*Term]int{}, prev: map[*Term]*Term{}, axSeen: map[string]bool{}}
	c.T = c.mk(&Term{op: "true", sort: sBool})
	c.F = c.mk(&Term{op: "false", sort: sBool})
	c.zero = c.Int(0)
	c.one = c.Int(1)
	return c
}

func (c *Ctx) arr(k, e *Sort) *Sort {
	n := "(Array " + k.name + " " + e.name + ")"
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{name: n, kind: 'a', key: k, elem: e}
	c.sorts[n] = s
	return s
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.val != nil {
		b.WriteString(t.val.String())
	}
	if t.op == "var" || t.op == "bvar" || t.op == "constarr" {
		b.WriteString(t.sort.name)
	}
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].String())
		}
	}
	for _, a := range t.binds {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, tr := range t.trigs {
		b.WriteByte('!')
		for _, a := range tr {
			fmt.Fprintf(&b, ".%d", a.id)
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	t.ground = t.op != "bvar"
	for _, a := range t.args {
		if !a.ground {
			t.ground = false
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	if t.op == "forall" || t.op == "exists" {
		// ground if the only free bound variables are its own: recompute
		t.ground = freeBound(t.args[0], t.binds)
	}
	c.tab[k] = t
	return t
}

func freeBound(t *Term, own []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term, own []*Term) bool
	walk = func(t *Term, own []*Term) bool {
		if t.ground || seen[t] {
			return true
		}
		if t.op == "bvar" {
			for _, o := range own {
				if o == t {
					return true
				}
			}
			return false
		}
		if t.op == "forall" || t.op == "exists" {
			return walk(t.args[0], append(append([]*Term{}, own...), t.binds...))
		}
		for _, a := range t.args {
			if !walk(a, own) {
				return false
			}
		}
		seen[t] = true
		return true
	}
	return walk(t, own)
}

func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term {
	return c.mk(&Term{op: "int", val: new(big.Int).Set(n), sort: sInt})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(name string, s *Sort) *Term { return c.mk(&Term{op: "var", name: name, sort: s}) }
func (c *Ctx) Fresh(hint string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}
func (c *Ctx) BVar(name string, s *Sort) *Term {
	c.fresh++
	return c.mk(&Term{op: "bvar", name: fmt.Sprintf("%s?%d", sanitize(name), c.fresh), sort: s})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$<>/*-", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// UF application
func (c *Ctx) App(name string, res *Sort, args ...*Term) *Term {
	name = sanitize(name)
	if sg, ok := c.ufs[name]; ok {
		if len(sg.args) != len(args) {
			panic(fmt.Sprintf("uf %s: arity %d vs %d", name, len(sg.args), len(args)))
		}
		for i := range args {
			if sg.args[i] != args[i].sort {
				panic(fmt.Sprintf("uf %s: arg %d sort %s want %s", name, i, args[i].sort.name, sg.args[i].name))
			}
		}
		if sg.res != res {
			panic(fmt.Sprintf("uf %s: result sort %s vs %s", name, res.name, sg.res.name))
		}
	} else {
		sg := ufSig{res: res}
		for _, a := range args {
			sg.args = append(sg.args, a.sort)
		}
		c.ufs[name] = sg
	}
	return c.mk(&Term{op: "app", name: name, args: args, sort: res})
}

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

// ---- linear arithmetic ----

type lin struct {
	k  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{k: new(big.Int), co: map[*Term]*big.Int{}}
	l.addTerm(t, big.NewInt(1))
	return l
}
func (l *lin) addTerm(t *Term, f *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(t.val, f))
	case "+":
		l.k.Add(l.k, new(big.Int).Mul(t.val, f))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coefs[i], f))
		}
	default:
		l.addAtom(t, f)
	}
}
func (l *lin) addAtom(t *Term, f *big.Int) {
	if o, ok := l.co[t]; ok {
		s := new(big.Int).Add(o, f)
		if s.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = s
		}
	} else if f.Sign() != 0 {
		l.co[t] = f
	}
}
func (c *Ctx) fromLin(l lin) *Term {
	if len(l.co) == 0 {
		return c.Big(l.k)
	}
	var as []*Term
	for a := range l.co {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.co[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	t := &Term{op: "+", sort: sInt, val: new(big.Int).Set(l.k), args: as}
	for _, a := range as {
		t.coefs = append(t.coefs, l.co[a])
	}
	return c.mk(t)
}
func (c *Ctx) Add(ts ...*Term) *Term {
	l := lin{k: new(big.Int), co: map[*Term]*big.Int{}}
	for _, t := range ts {
		l.addTerm(t, big.NewInt(1))
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := toLin(a)
	l.addTerm(b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) AddI(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }
func (c *Ctx) Neg(a *Term) *Term           { return c.Sub(c.zero, a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := lin{k: new(big.Int), co: map[*Term]*big.Int{}}
		if a.val.Sign() == 0 {
			return c.zero
		}
		l.addTerm(b, a.val)
		return c.fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "*", args: []*Term{a, b}, sort: sInt})
}

// Euclidean division and modulus (divisor a non-zero constant, or symbolic).
func (c *Ctx) Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.val.Sign() > 0 {
		return c.Big(new(big.Int).Div(a.val, b.val))
	}
	if b.isInt() && b.val.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk(&Term{op: "div", args: []*Term{a, b}, sort: sInt})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.val.Sign() > 0 {
		return c.Big(new(big.Int).Mod(a.val, b.val))
	}
	if b.isInt() && b.val.Cmp(big.NewInt(1)) == 0 {
		return c.zero
	}
	return c.mk(&Term{op: "mod", args: []*Term{a, b}, sort: sInt})
}

// ---- boolean ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.F
	case "false":
		return c.T
	case "not":
		return a.args[0]
	case "<=":
		// !(a<=b)  ==  b+1<=a
		return c.Le(c.AddI(a.args[1], 1), a.args[0])
	}
	return c.mk(&Term{op: "not", args: []*Term{a}, sort: sBool})
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary("and", ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary("or", ts) }
func (c *Ctx) nary(op string, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	unit, abs := c.T, c.F
	if op == "or" {
		unit, abs = c.F, c.T
	}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == abs {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return abs
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, args: out, sort: sBool})
}
func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.isTrue() || a == b {
		return a
	}
	if k.isFalse() {
		return b
	}
	if a.sort == sBool {
		if a.isTrue() && b.isFalse() {
			return k
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(k)
		}
		return c.And(c.Imp(k, a), c.Or(k, b))
	}
	return c.mk(&Term{op: "ite", args: []*Term{k, a, b}, sort: a.sort})
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isInt() {
		return c.Bool(d.val.Sign() >= 0)
	}
	return c.mk(&Term{op: "<=", args: []*Term{a, b}, sort: sBool})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.AddI(a, 1), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %s %s: %s = %s", a.sort.name, b.sort.name, a, b))
	}
	switch a.sort.kind {
	case 'i':
		d := c.Sub(a, b)
		if d.isInt() {
			return c.Bool(d.val.Sign() == 0)
		}
		if c.distinct(a, b) {
			return c.F
		}
	case 'b':
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	case 's':
		sa, ok1 := c.litOf[a]
		sb, ok2 := c.litOf[b]
		if ok1 && ok2 {
			return c.Bool(sa == sb)
		}
		if c.SLen(a) == c.zero && c.SLen(b) == c.zero {
			return c.T
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "=", args: []*Term{a, b}, sort: sBool})
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// frontierOf: t = A + k with A a frontier variable, k>=0: returns epoch.
func (c *Ctx) frontierOf(t *Term) int {
	if e, ok := c.epochs[t]; ok {
		return e
	}
	if t.op == "+" && len(t.args) == 1 && t.val.Sign() >= 0 && t.coefs[0].Cmp(big.NewInt(1)) == 0 {
		if e, ok := c.epochs[t.args[0]]; ok {
			return e
		}
	}
	return 0
}

// distinct decides syntactically that two Int (reference) terms differ.
func (c *Ctx) distinct(a, b *Term) bool {
	d := c.Sub(a, b)
	if d.isInt() {
		return d.val.Sign() != 0
	}
	if c.earlier(a, b) || c.earlier(b, a) {
		return true
	}
	ea, eb := c.frontierOf(a), c.frontierOf(b)
	if ea > 0 && c.below(b, ea) {
		return true
	}
	if eb > 0 && c.below(a, eb) {
		return true
	}
	return false
}

// frontSplit: t = A + k with A a frontier variable and 0 <= k.
func (c *Ctx) frontSplit(t *Term) (*Term, int64, bool) {
	if _, ok := c.epochs[t]; ok {
		return t, 0, true
	}
	if t.op == "+" && len(t.args) == 1 && t.val.Sign() >= 0 && t.coefs[0].Cmp(big.NewInt(1)) == 0 {
		if _, ok := c.epochs[t.args[0]]; ok {
			return t.args[0], t.val.Int64(), true
		}
	}
	return nil, 0, false
}

// earlier: a was allocated before the frontier that b was allocated at.
func (c *Ctx) earlier(a, b *Term) bool {
	av, ak, ok1 := c.frontSplit(a)
	bv, _, ok2 := c.frontSplit(b)
	if !ok1 || !ok2 {
		return false
	}
	for n := 0; n < 400; n++ {
		p := c.prev[bv]
		if p == nil {
			return false
		}
		pv, pk, ok := c.frontSplit(p)
		if !ok {
			return false
		}
		if pv == av {
			return ak < pk
		}
		bv = pv
	}
	return false
}

// after: frontier variable v was introduced after frontier variable f.
func (c *Ctx) after(v, f *Term) bool {
	for n := 0; n < 400; n++ {
		p := c.prev[v]
		if p == nil {
			return false
		}
		pv, _, ok := c.frontSplit(p)
		if !ok {
			return false
		}
		if pv == f {
			return true
		}
		v = pv
	}
	return false
}

// below: b is known to be < every frontier of epoch >= e.
func (c *Ctx) below(b *Term, e int) bool {
	if b.isInt() {
		return b.val.Cmp(big.NewInt(100000)) < 0
	}
	return b.epoch > 0 && b.epoch <= e
}

// ---- arrays ----

func (c *Ctx) ConstArr(k *Sort, v *Term) *Term {
	return c.mk(&Term{op: "constarr", args: []*Term{v}, sort: c.arr(k, v.sort)})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.sort.kind != 'a' || a.sort.key != i.sort || a.sort.elem != v.sort {
		panic(fmt.Sprintf("Store sort mismatch: %s [%s] := %s", a.sort.name, i.sort.name, v.sort.name))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if c.Select(a, i) == v {
		return a
	}
	return c.mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func (c *Ctx) Select(a, i *Term) *Term {
	if a.sort.kind != 'a' || a.sort.key != i.sort {
		panic(fmt.Sprintf("Select sort mismatch: %s [%s]", a.sort.name, i.sort.name))
	}
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if i.sort == sInt && c.distinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		if i.sort == sSeq {
			e := c.Eq(a.args[1], i)
			if e.isFalse() {
				a = a.args[0]
				continue
			}
			if a.sort.elem.kind != 'a' {
				return c.Ite(e, a.args[2], c.Select(a.args[0], i))
			}
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return c.mk(&Term{op: "select", args: []*Term{a, i}, sort: a.sort.elem})
}

// ---- sequences (of Int) ----
// s.len(s); s.at(s,i); s.cat(a,b); s.sub(s,o,n); s.rep(v,n); s.arr(A,o,n)
// Array splice: a.spl(A,o,s)

func (c *Ctx) SLen(s *Term) *Term {
	switch {
	case s.op == "app" && s.name == "s.cat":
		return c.Add(c.SLen(s.args[0]), c.SLen(s.args[1]))
	case s.op == "app" && (s.name == "s.sub" || s.name == "s.arr"):
		return c.max0(s.args[2])
	case s.op == "app" && s.name == "s.rep":
		return c.max0(s.args[1])
	}
	if l, ok := c.litOf[s]; ok {
		return c.Int(int64(len(l)))
	}
	return c.App("s.len", sInt, s)
}

// lengths are kept non-negative by construction where we know it
func (c *Ctx) max0(n *Term) *Term {
	if n.isInt() {
		if n.val.Sign() < 0 {
			return c.zero
		}
		return n
	}
	if nonneg(n) {
		return n
	}
	return c.Ite(c.Le(c.zero, n), n, c.zero)
}

var nonnegTab = map[*Term]bool{}

func nonneg(n *Term) bool {
	if n.op == "app" && n.name == "s.len" {
		return true
	}
	if n.op == "+" {
		if n.val.Sign() < 0 {
			return false
		}
		for i, a := range n.args {
			if n.coefs[i].Sign() < 0 || !nonneg(a) {
				return false
			}
		}
		return true
	}
	if n.op == "int" {
		return n.val.Sign() >= 0
	}
	if n.op == "mod" {
		return n.args[1].isInt() && n.args[1].val.Sign() > 0
	}
	if n.op == "div" {
		return nonneg(n.args[0]) && n.args[1].isInt() && n.args[1].val.Sign() > 0
	}
	if n.op == "ite" {
		return nonneg(n.args[1]) && nonneg(n.args[2])
	}
	return n.epoch == -1 // marked non-negative
}

// MarkNonneg records that t is a length-like non-negative quantity (a fact is asserted with it).
func MarkNonneg(t *Term) {
	if t.op == "var" || t.op == "select" || t.op == "app" {
		if t.epoch == 0 {
			t.epoch = -1
		}
	}
}

func (c *Ctx) SAt(s, i *Term) *Term {
	for {
		if s.op == "app" && s.name == "s.rep" {
			// only valid in range; callers use in-range indices, the axiom covers the rest
			if i.isInt() && s.args[1].isInt() && i.val.Sign() >= 0 && i.val.Cmp(s.args[1].val) < 0 {
				return s.args[0]
			}
			break
		}
		if l, ok := c.litOf[s]; ok {
			if i.isInt() && i.val.Sign() >= 0 && i.val.Cmp(big.NewInt(int64(len(l)))) < 0 {
				return c.Int(int64(l[i.val.Int64()]))
			}
		}
		if s.op == "app" && s.name == "s.arr" && i.isInt() && s.args[2].isInt() && i.val.Sign() >= 0 && i.val.Cmp(s.args[2].val) < 0 {
			return c.Select(s.args[0], c.Add(s.args[1], i))
		}
		break
	}
	return c.App("s.at", sInt, s, i)
}
func (c *Ctx) Empty() *Term { return c.Lit("") }
func (c *Ctx) Cat(a, b *Term) *Term {
	if c.SLen(a) == c.zero {
		return b
	}
	if c.SLen(b) == c.zero {
		return a
	}
	la, ok1 := c.litOf[a]
	lb, ok2 := c.litOf[b]
	if ok1 && ok2 {
		return c.Lit(la + lb)
	}
	// right-associate
	if a.op == "app" && a.name == "s.cat" {
		return c.Cat(a.args[0], c.Cat(a.args[1], b))
	}
	if ok1 && b.op == "app" && b.name == "s.cat" {
		if lb, ok := c.litOf[b.args[0]]; ok {
			return c.Cat(c.Lit(la+lb), b.args[1])
		}
	}
	return c.App("s.cat", sSeq, a, b)
}
func (c *Ctx) SSub(s, o, n *Term) *Term {
	if n.isInt() && n.val.Sign() <= 0 {
		return c.Empty()
	}
	if o == c.zero && n == c.SLen(s) {
		return s
	}
	if l, ok := c.litOf[s]; ok && o.isInt() && n.isInt() {
		a, m := o.val.Int64(), n.val.Int64()
		if a >= 0 && a+m <= int64(len(l)) {
			return c.Lit(l[a : a+m])
		}
	}
	if s.op == "app" && s.name == "s.rep" && s.args[1].isInt() && o.isInt() && n.isInt() && o.val.Sign() >= 0 && new(big.Int).Add(o.val, n.val).Cmp(s.args[1].val) <= 0 {
		return c.Rep(s.args[0], n)
	}
	return c.App("s.sub", sSeq, s, o, n)
}
func (c *Ctx) Rep(v, n *Term) *Term {
	if n.isInt() && n.val.Sign() <= 0 {
		return c.Empty()
	}
	return c.App("s.rep", sSeq, v, n)
}
func (c *Ctx) Unit(v *Term) *Term {
	if v.isInt() && v.val.Sign() >= 0 && v.val.Cmp(big.NewInt(256)) < 0 {
		return c.Lit(string([]byte{byte(v.val.Int64())}))
	}
	return c.Rep(v, c.one)
}
func (c *Ctx) SArr(a, o, n *Term) *Term {
	if n.isInt() && n.val.Sign() <= 0 {
		return c.Empty()
	}
	if a.op == "constarr" {
		return c.Rep(a.args[0], n)
	}
	if a.op == "app" && a.name == "a.spl" && a.args[1] == o {
		l := c.SLen(a.args[2])
		if l == n {
			return a.args[2]
		}
	}
	if a.op == "app" && a.name == "a.spl" && o.isInt() && n.isInt() && a.args[1].isInt() {
		// region entirely inside or entirely before the spliced region
		so := a.args[1].val
		if new(big.Int).Add(o.val, n.val).Cmp(so) <= 0 {
			return c.SArr(a.args[0], o, n)
		}
	}
	if n.isInt() && n.val.Cmp(big.NewInt(64)) <= 0 && a.op == "store" {
		// small region over explicit stores: literal if all bytes known
		var bs []byte
		for k := int64(0); k < n.val.Int64(); k++ {
			v := c.Select(a, c.AddI(o, k))
			if !v.isInt() || v.val.Sign() < 0 || v.val.Cmp(big.NewInt(256)) >= 0 {
				bs = nil
				break
			}
			bs = append(bs, byte(v.val.Int64()))
		}
		if bs != nil {
			return c.Lit(string(bs))
		}
	}
	return c.App("s.arr", sSeq, a, o, n)
}

// Splice writes sequence s into array a at offset o.
func (c *Ctx) Splice(a, o, s *Term) *Term {
	l := c.SLen(s)
	if l == c.zero {
		return a
	}
	if l.isInt() && l.val.Cmp(c.one.val) == 0 {
		return c.Store(a, o, c.SAt(s, c.zero))
	}
	if a.op == "app" && a.name == "a.spl" && a.args[1] == o && c.SLen(a.args[2]) == l {
		a = a.args[0]
	}
	return c.App("a.spl", a.sort, a, o, s)
}

// generic (non-Int element) splice from another array: a.cpy(dst, do, src, so, n)
func (c *Ctx) CopyArr(dst, do, src, so, n *Term) *Term {
	if n.isInt() && n.val.Sign() <= 0 {
		return dst
	}
	if n.isInt() && n.val.Cmp(big.NewInt(8)) <= 0 {
		r := dst
		for k := int64(0); k < n.val.Int64(); k++ {
			r = c.Store(r, c.AddI(do, k), c.Select(src, c.AddI(so, k)))
		}
		return r
	}
	return c.App("a.cpy"+dst.sort.elem.name, dst.sort, dst, do, src, so, n)
}

func (c *Ctx) Lit(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	t := c.Var(fmt.Sprintf("lit!%d", len(c.lits)), sSeq)
	c.lits[s] = t
	c.litOf[t] = s
	return t
}

// ---- quantifiers ----

func (c *Ctx) Forall(binds []*Term, body *Term, trigs ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if body.op == "and" && len(trigs) == 0 {
		var out []*Term
		for _, a := range body.args {
			out = append(out, c.Forall(binds, a))
		}
		return c.And(out...)
	}
	var used []*Term
	for _, b := range binds {
		if occurs(body, b) {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	if len(trigs) == 0 {
		for _, b := range used {
			if r := shiftOf(body, b); r != nil {
				body = c.Subst(body, map[*Term]*Term{b: c.Sub(b, c.Sub(r, b))})
			}
		}
	} else {
		for _, b := range used {
			if b.sort != sInt {
				continue
			}
			var all []*Term
			for _, tr := range trigs {
				all = append(all, tr...)
			}
			r := shiftOfAny(all, b)
			if r == nil {
				continue
			}
			m := map[*Term]*Term{b: c.Sub(b, c.Sub(r, b))}
			body = c.Subst(body, m)
			nt := make([][]*Term, len(trigs))
			for i, tr := range trigs {
				for _, t := range tr {
					nt[i] = append(nt[i], c.Subst(t, m))
				}
			}
			trigs = nt
		}
	}
	return c.mk(&Term{op: "forall", binds: used, args: []*Term{body}, trigs: trigs, sort: sBool})
}

// shiftOf: if b is used as an array index only in the form r+b (r without bound
// variables), r; so that x=r+b can serve as the bound variable instead and the
// array access becomes a pattern.
func shiftOf(body, b *Term) *Term { return shiftOfAny([]*Term{body}, b) }

func shiftOfAny(bodies []*Term, b *Term) *Term { // returns r+b
	var r *Term
	bad := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if bad || t.ground || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			if occurs(t, b) {
				bad = true
			}
			return
		}
		if t.op == "app" {
			for _, a := range t.args {
				if a == b {
					bad = true
				}
			}
		}
		if t.op == "select" || (t.op == "app" && strings.HasPrefix(t.name, "elem!") && len(t.args) == 2) {
			i := t.args[1]
			if i == b {
				bad = true
			} else if i.op == "+" && r == nil {
				k := -1
				ok := true
				for j, a := range i.args {
					if a == b && i.coefs[j].Cmp(bigOne) == 0 {
						k = j
					} else if !a.ground {
						ok = false
					}
				}
				if ok && k >= 0 {
					r = i
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, body := range bodies {
		walk(body)
	}
	if bad || r == nil {
		return nil
	}
	return r
}
func (c *Ctx) Exists(binds []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	for _, b := range binds {
		if r := shiftOf(body, b); r != nil {
			body = c.Subst(body, map[*Term]*Term{b: c.Sub(b, c.Sub(r, b))})
		}
	}
	return c.mk(&Term{op: "exists", binds: binds, args: []*Term{body}, sort: sBool})
}

func occurs(t, b *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == b {
			return true
		}
		if t.ground || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// Subst replaces terms (bottom-up rebuild through smart constructors).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = w(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, na, w)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term, w func(*Term) *Term) *Term {
	switch t.op {
	case "+":
		l := lin{k: new(big.Int).Set(t.val), co: map[*Term]*big.Int{}}
		for i := range a {
			l.addTerm(a[i], t.coefs[i])
		}
		return c.fromLin(l)
	case "*":
		return c.Mul(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "not":
		return c.Not(a[0])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "constarr":
		return c.ConstArr(t.sort.key, a[0])
	case "forall", "exists":
		var trs [][]*Term
		for _, tr := range t.trigs {
			var n []*Term
			for _, x := range tr {
				n = append(n, w(x))
			}
			trs = append(trs, n)
		}
		if t.op == "forall" {
			return c.Forall(t.binds, a[0], trs...)
		}
		return c.Exists(t.binds, a[0])
	case "app":
		switch t.name {
		case "s.len":
			return c.SLen(a[0])
		case "s.at":
			return c.SAt(a[0], a[1])
		case "s.cat":
			return c.Cat(a[0], a[1])
		case "s.sub":
			return c.SSub(a[0], a[1], a[2])
		case "s.rep":
			return c.Rep(a[0], a[1])
		case "s.arr":
			return c.SArr(a[0], a[1], a[2])
		case "a.spl":
			return c.Splice(a[0], a[1], a[2])
		}
		return c.App(t.name, t.sort, a...)
	}
	panic("rebuild " + t.op)
}

func (t *Term) String() string {
	var b strings.Builder
	pp(&b, t, 0)
	s := b.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}
func pp(b *strings.Builder, t *Term, d int) {
	if b.Len() > 4000 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case "int":
		b.WriteString(t.val.String())
	case "true", "false":
		b.WriteString(t.op)
	case "var", "bvar":
		b.WriteString(t.name)
	case "+":
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coefs[i].Cmp(big.NewInt(1)) != 0 {
				b.WriteString(t.coefs[i].String() + "*")
			}
			pp(b, a, d+1)
		}
		if t.val.Sign() != 0 {
			b.WriteString(" " + t.val.String())
		}
		b.WriteByte(')')
	default:
		n := t.op
		if n == "app" {
			n = t.name
		}
		b.WriteString("(" + n)
		for _, x := range t.binds {
			b.WriteString(" " + x.name)
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			pp(b, a, d+1)
		}
		b.WriteByte(')')
	}
}
