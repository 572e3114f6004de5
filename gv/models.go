package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of external functions. Everything here is trusted and listed in the
// evidence. A model either continues with k (normal return) or ends the path.

var models map[string]model

func (cs *CallSite) ret(vs ...Val) { cs.k(cs.st, vs) }

// panics: the call never returns normally.
func (cs *CallSite) panics() {
	cs.e.mustNotPanic(cs.e.c.F, cs.name, cs.pos)
}

func (cs *CallSite) sl(i int) *SliceV { return cs.args[i].(*SliceV) }
func (cs *CallSite) t(i int) *Term    { return cs.args[i].(*Term) }
func (cs *CallSite) seq(i int) *Term {
	switch x := cs.args[i].(type) {
	case *SliceV:
		return cs.e.content(cs.st, x)
	case *Term:
		return x
	}
	panic(unsupported("model argument of " + cs.name))
}

func (e *Exec) nilErr() *IfaceV { return &IfaceV{e.c.zero, e.c.zero} }

// newErr: a fresh non-nil error, different from every existing one.
func (e *Exec) newErr(st *State) *IfaceV {
	return &IfaceV{e.c.Int(int64(e.typeID("!error", nil))), e.alloc(st)}
}

// someErr: an unknown non-nil error.
func (e *Exec) someErr(st *State, hint string) *IfaceV {
	v := e.freshVal(st, errorT, hint).(*IfaceV)
	e.assume(e.c.Ne(v.tag, e.c.zero))
	return v
}

// anyErr: an unknown error, possibly nil.
func (e *Exec) anyErr(st *State, hint string) *IfaceV {
	return e.freshVal(st, errorT, hint).(*IfaceV)
}

// either explores two outcomes of a nondeterministic choice.
func (e *Exec) either(label string, a, b func(st *State), st *State) {
	for i, f := range []func(*State){a, b} {
		e.push()
		e.pathLog = append(e.pathLog, fmt.Sprintf("%s outcome %d", label, i))
		f(st.clone())
		e.pathLog = e.pathLog[:len(e.pathLog)-1]
		e.pop()
	}
}

// freshSeq: an unknown byte string of length at most maxLen.
func (e *Exec) freshSeq(hint string) *Term {
	s := e.c.Fresh(hint, sSeq)
	e.assume(e.c.Le(e.c.SLen(s), e.c.Big(maxLen)))
	return s
}

// structField returns the location of a named field.
func (e *Exec) structField(p Val, tn, f string) (Val, types.Type) {
	T := e.w.findType(tn)
	if T == nil {
		panic(unsupported("type " + tn))
	}
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return e.fieldLoc(p, T, i), s.Field(i).Type()
		}
	}
	panic(unsupported("field " + tn + "." + f))
}
func (e *Exec) getF(st *State, p Val, tn, f string) Val {
	l, t := e.structField(p, tn, f)
	e.guard(st, l, t, false, e.callPos)
	v := e.load(st, l, t)
	e.typeFacts(st, v, t)
	return v
}
func (e *Exec) setF(st *State, p Val, tn, f string, v Val) {
	l, t := e.structField(p, tn, f)
	e.guard(st, l, t, true, e.callPos)
	e.store(st, l, t, v)
}

// appendSeq: append(dst, seq...) with Go's in-place semantics. fresh results
// have an unknown capacity.
func (e *Exec) appendSeq(st *State, dst *SliceV, seq *Term, k func(*State, *SliceV)) {
	c := e.c
	n := c.SLen(seq)
	nl := c.Add(dst.len, n)
	e.branch(c.Le(nl, dst.cap), func() {
		s := st.clone()
		out := &SliceV{dst.base, dst.off, nl, dst.cap}
		e.setContent(s, dst, dst.len, seq)
		k(s, out)
	}, func() {
		s := st.clone()
		out := e.makeBytes(s, c.Cat(e.content(st, dst), seq))
		cp := c.Fresh("apcap", sInt)
		MarkNonneg(cp)
		e.assume(c.And(c.Le(out.len, cp), c.Lt(dst.cap, cp), c.Le(cp, c.Big(maxLen))))
		out.cap = cp
		k(s, out)
	})
}

func constOf(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func noop(cs *CallSite) { cs.ret() }

// freshRes: results unknown, nothing modified.
func freshRes(cs *CallSite) {
	st := cs.st.clone()
	cs.e.newFrontier(st)
	cs.k(st, cs.e.freshResults(st, cs.sig, cs.name))
}

func bufBytes(e *Exec, st *State, p Val) (*SliceV, *SliceV, *Term) {
	b := e.getF(st, p, "bytes.Buffer", "buf").(*SliceV)
	off := e.getF(st, p, "bytes.Buffer", "off").(*Term)
	e.assume(e.c.And(e.c.Le(e.c.zero, off), e.c.Le(off, b.len)))
	return b, &SliceV{b.base, e.c.Add(b.off, off), e.c.Sub(b.len, off), e.c.Sub(b.cap, off)}, off
}

func init() {
	models = map[string]model{}
	m := func(names string, f model) {
		for _, n := range strings.Fields(names) {
			models[n] = f
		}
	}

	// ---- logging, process end ----
	m("(*tlog.toggledLogger).Printf (*tlog.toggledLogger).Println (*log.Logger).Printf (*log.Logger).Println log.Printf log.Println fmt.Print fmt.Println runtime.GC", func(cs *CallSite) {
		cs.k(cs.st, cs.e.freshResults(cs.st, cs.sig, "out"))
	})
	m("fmt.Fprintf fmt.Fprintln fmt.Printf", freshRes)
	m("log.Panic log.Panicf log.Panicln (*log.Logger).Panic (*log.Logger).Panicf", func(cs *CallSite) { cs.panics() })
	m("log.Fatal log.Fatalf log.Fatalln os.Exit", func(cs *CallSite) {
		// the process ends here: no postcondition has to hold on this path
		e := cs.e
		if t := []string{"C07"}; e.noPanic && e.suppress == 0 && e.interested(t) {
			e.oblige("no-panic: the process does not end", t, e.c.F, cs.pos)
		}
	})
	m("log.New", freshRes)

	// ---- errors and formatting ----
	m("errors.New fmt.Errorf", func(cs *CallSite) {
		st := cs.st.clone()
		cs.k(st, []Val{cs.e.newErr(st)})
	})
	m("fmt.Sprint fmt.Sprintln", func(cs *CallSite) { cs.ret(cs.e.freshSeq("sprint")) })
	m("fmt.Sprintf", sprintfModel)
	m("encoding/hex.Dump", func(cs *CallSite) { cs.ret(cs.e.freshSeq("dump")) })
	m("encoding/hex.EncodeToString", func(cs *CallSite) {
		cs.ret(cs.e.uf("hexf", cs.seq(0)))
	})

	// ---- bytes ----
	m("bytes.Equal", func(cs *CallSite) {
		cs.ret(cs.e.c.Eq(cs.seq(0), cs.seq(1)))
	})
	m("bytes.Contains strings.Contains", func(cs *CallSite) {
		cs.ret(cs.e.contains(cs.seq(0), cs.seq(1)))
	})
	m("strings.HasPrefix", func(cs *CallSite) {
		c := cs.e.c
		s, p := cs.seq(0), cs.seq(1)
		cs.ret(c.And(c.Le(c.SLen(p), c.SLen(s)), c.Eq(c.SSub(s, c.zero, c.SLen(p)), p)))
	})
	m("strings.HasSuffix", func(cs *CallSite) {
		c := cs.e.c
		s, p := cs.seq(0), cs.seq(1)
		cs.ret(c.And(c.Le(c.SLen(p), c.SLen(s)), c.Eq(c.SSub(s, c.Sub(c.SLen(s), c.SLen(p)), c.SLen(p)), p)))
	})
	m("bytes.NewBuffer", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		r := e.alloc(st)
		T := e.w.findType("bytes.Buffer")
		e.store(st, r, T, e.zero(T))
		e.setF(st, r, "bytes.Buffer", "buf", cs.args[0])
		cs.k(st, []Val{r})
	})
	m("bytes.NewReader", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		r := e.alloc(st)
		T := e.w.findType("bytes.Reader")
		e.store(st, r, T, e.zero(T))
		e.setF(st, r, "bytes.Reader", "s", cs.args[0])
		e.setF(st, r, "bytes.Reader", "prevRune", e.c.Int(-1))
		cs.k(st, []Val{r})
	})
	m("(*bytes.Buffer).Len", func(cs *CallSite) {
		_, rest, _ := bufBytes(cs.e, cs.st, cs.args[0])
		cs.ret(rest.len)
	})
	m("(*bytes.Buffer).Bytes", func(cs *CallSite) {
		_, rest, _ := bufBytes(cs.e, cs.st, cs.args[0])
		cs.ret(rest)
	})
	m("(*bytes.Buffer).Next", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		c := e.c
		_, rest, off := bufBytes(e, st, cs.args[0])
		n := c.Ite(c.Le(cs.t(1), rest.len), cs.t(1), rest.len)
		e.mustNotPanic(c.Le(c.zero, cs.t(1)), "negative count for Next", cs.pos)
		e.branch(c.Le(cs.t(1), rest.len), func() { n = cs.t(1); bufNext(cs, st, rest, off, n) }, func() { bufNext(cs, st, rest, off, rest.len) })
	})
	m("(*bytes.Buffer).Reset", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		b, _, _ := bufBytes(e, st, cs.args[0])
		e.setF(st, cs.args[0], "bytes.Buffer", "buf", &SliceV{b.base, b.off, e.c.zero, b.cap})
		e.setF(st, cs.args[0], "bytes.Buffer", "off", e.c.zero)
		cs.k(st, nil)
	})
	m("(*bytes.Buffer).Read", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		c := e.c
		b, rest, off := bufBytes(e, st, cs.args[0])
		p := cs.sl(1)
		e.branch(c.Eq(rest.len, c.zero), func() {
			s := st.clone()
			e.setF(s, cs.args[0], "bytes.Buffer", "buf", &SliceV{b.base, b.off, c.zero, b.cap})
			e.setF(s, cs.args[0], "bytes.Buffer", "off", c.zero)
			e.branch(c.Eq(p.len, c.zero), func() { cs.k(s, []Val{c.zero, e.nilErr()}) }, func() {
				cs.k(s, []Val{c.zero, e.extErr("io.EOF")})
			})
		}, func() {
			e.branch(c.Le(p.len, rest.len), func() {
				s := st.clone()
				e.setContent(s, p, c.zero, e.content(st, &SliceV{rest.base, rest.off, p.len, p.len}))
				e.setF(s, cs.args[0], "bytes.Buffer", "off", c.Add(off, p.len))
				cs.k(s, []Val{p.len, e.nilErr()})
			}, func() {
				s := st.clone()
				e.setContent(s, p, c.zero, e.content(st, rest))
				e.setF(s, cs.args[0], "bytes.Buffer", "off", b.len)
				cs.k(s, []Val{rest.len, e.nilErr()})
			})
		})
	})
	m("(*bytes.Buffer).Write (*bytes.Buffer).WriteString", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		c := e.c
		b, rest, off := bufBytes(e, st, cs.args[0])
		data := cs.seq(1)
		n := c.SLen(data)
		fin := func(s *State, nb *SliceV, noff *Term) {
			e.setF(s, cs.args[0], "bytes.Buffer", "buf", nb)
			e.setF(s, cs.args[0], "bytes.Buffer", "off", noff)
			cs.k(s, []Val{n, e.nilErr()})
		}
		// nothing left to read: the buffer restarts at the front
		e.branch(c.And(c.Eq(rest.len, c.zero), c.Ne(off, c.zero)), func() {
			e.appendSeq(st, &SliceV{b.base, b.off, c.zero, b.cap}, data, func(s *State, nb *SliceV) { fin(s, nb, c.zero) })
		}, func() {
			e.branch(c.Le(c.Add(b.len, n), b.cap), func() {
				s := st.clone()
				e.setContent(s, b, b.len, data)
				fin(s, &SliceV{b.base, b.off, c.Add(b.len, n), b.cap}, off)
			}, func() {
				cat := c.Cat(e.content(st, rest), data)
				grow := func(s *State) {
					out := e.makeBytes(s, cat)
					cp := c.Fresh("bufcap", sInt)
					MarkNonneg(cp)
					e.assume(c.And(c.Le(out.len, cp), c.Lt(b.cap, cp), c.Le(cp, c.Big(maxLen))))
					out.cap = cp
					fin(s, out, c.zero)
				}
				e.branch(c.Eq(off, c.zero), func() { grow(st.clone()) }, func() {
					e.either("buffer growth", grow, func(s *State) {
						// sliding the unread part to the front
						e.assume(c.Le(c.SLen(cat), b.cap))
						e.setContent(s, b, c.zero, cat)
						fin(s, &SliceV{b.base, b.off, c.SLen(cat), b.cap}, c.zero)
					}, st)
				})
			})
		})
	})

	// ---- encoding/binary ----
	m("(encoding/binary.bigEndian).PutUint64", func(cs *CallSite) { putBE(cs, 8, "be64") })
	m("(encoding/binary.bigEndian).PutUint16", func(cs *CallSite) { putBE(cs, 2, "be16") })
	m("(encoding/binary.bigEndian).Uint64", func(cs *CallSite) { getBE(cs, 8, "unbe64") })
	m("(encoding/binary.bigEndian).Uint16", func(cs *CallSite) { getBE(cs, 2, "unbe16") })

	// ---- sync ----
	lock := func(mode int64, acq bool) model {
		return func(cs *CallSite) {
			st := cs.st.clone()
			if acq {
				cs.e.acquire(st, cs.t(0), mode, cs.pos)
			} else {
				cs.e.release(st, cs.t(0), mode, cs.pos)
			}
			cs.k(st, nil)
		}
	}
	m("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock(2, true))
	m("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", lock(2, false))
	m("(*sync.RWMutex).RLock", lock(1, true))
	m("(*sync.RWMutex).RUnlock", lock(1, false))
	m("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait", noop)
	m("(*sync.Pool).Get", func(cs *CallSite) {
		// exclusive memory, arbitrary content: either made by New or put back before
		e, st := cs.e, cs.st.clone()
		nf := e.getF(st, cs.args[0], "sync.Pool", "New")
		_ = nf
		e.poolGet(cs, st)
	})
	m("(*sync.Pool).Put", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		v := cs.args[1].(*IfaceV)
		if v.tag == e.tagOf(byteSliceT) {
			s := e.unbox(v, byteSliceT).(*SliceV)
			e.useBase(st, s.base, cs.pos)
			if e.w.spec.ghosts["released"] != nil {
				e.gwrite(st, "released", e.c.T, s.base)
			}
			// the pool's next owner may write to it at any time
			cp := Comp{"", sInt, byteT, ""}
			e.setMemArr(st, s.base, byteT, cp, e.freshArr(st, "released", e.c.arr(sInt, sInt)))
		}
		cs.k(st, nil)
	})

	// ---- misc ----
	m("runtime.NumCPU", func(cs *CallSite) {
		v := cs.e.freshVal(cs.st, intT, "ncpu").(*Term)
		cs.e.assume(cs.e.c.Le(cs.e.c.one, v))
		cs.ret(v)
	})
	m("flag.Parse", noop)
	m("time.After", func(cs *CallSite) {
		st := cs.st.clone()
		r := cs.e.alloc(st)
		cs.k(st, []Val{r})
	})
	m("math.Log2", freshRes)
	m("sync.NewCond", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		r := e.alloc(st)
		e.setF(st, r, "sync.Cond", "L", cs.args[0])
		cs.k(st, []Val{r})
	})
	condLock := func(cs *CallSite, st *State) *Term {
		l := cs.e.getF(st, cs.args[0], "sync.Cond", "L").(*IfaceV)
		return l.pay
	}
	m("(*sync.Cond).Broadcast", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		e.oblige("waiters are woken while holding the lock they wait under", []string{"C16"}, e.c.Eq(e.gread(st, "held", condLock(cs, st)), e.c.Int(2)), cs.pos)
		if e.w.spec.ghosts["k_bcsets"] != nil {
			e.gwrite(st, "k_bcsets", e.gread(st, "k_setn", e.c.zero), e.c.zero)
		}
		cs.k(st, nil)
	})
	m("(*sync.Cond).Signal", noop)
	m("(*sync.Cond).Wait", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		e.oblige("waiting with the lock held", []string{"C16"}, e.c.Eq(e.gread(st, "held", condLock(cs, st)), e.c.Int(2)), cs.pos)
		cs.k(st, nil)
	})
	m("any.Error", func(cs *CallSite) { cs.ret(cs.e.freshSeq("errtext")) })
}

func bufNext(cs *CallSite, st *State, rest *SliceV, off, n *Term) {
	e := cs.e
	c := e.c
	s := st.clone()
	e.setF(s, cs.args[0], "bytes.Buffer", "off", c.Add(off, n))
	cs.k(s, []Val{&SliceV{rest.base, rest.off, n, rest.cap}})
}

func (e *Exec) contains(s, p *Term) *Term {
	c := e.c
	n := c.SLen(p)
	if n.isInt() && n.val.Int64() == 1 {
		i := c.BVar("hb", sInt)
		return c.Exists([]*Term{i}, c.And(c.Le(c.zero, i), c.Lt(i, c.SLen(s)), c.Eq(c.App("s.at", sInt, s, i), c.SAt(p, c.zero))))
	}
	return c.App("hassub", sBool, s, p)
}

// extErr: a package-level error value of a dependency.
func (e *Exec) extErr(name string) *IfaceV {
	return &IfaceV{e.c.Int(int64(e.typeID("!error", nil))), e.c.Int(int64(-1000 - e.typeID("!err:"+name, nil)))}
}

func putBE(cs *CallSite, n int64, f string) {
	e, st := cs.e, cs.st.clone()
	c := e.c
	b := cs.args[len(cs.args)-2].(*SliceV)
	v := cs.args[len(cs.args)-1].(*Term)
	e.mustNotPanic(c.Le(c.Int(n), b.len), "index out of range in PutUint", cs.pos)
	e.setContent(st, &SliceV{b.base, b.off, c.Int(n), b.cap}, c.zero, c.App(f, sSeq, v))
	cs.k(st, nil)
}
func getBE(cs *CallSite, n int64, f string) {
	e := cs.e
	c := e.c
	b := cs.args[len(cs.args)-1].(*SliceV)
	e.mustNotPanic(c.Le(c.Int(n), b.len), "index out of range in Uint", cs.pos)
	s := e.content(cs.st, &SliceV{b.base, b.off, c.Int(n), b.cap})
	for i := int64(0); i < n; i++ {
		x := c.SAt(s, c.Int(i))
		e.assume(c.And(c.Le(c.zero, x), c.Le(x, c.Int(255))))
	}
	v := c.App(f, sInt, s)
	cs.e.typeFacts(cs.st, v, cs.sig.Results().At(0).Type())
	cs.ret(v)
}

func (e *Exec) poolGet(cs *CallSite, st *State) {
	c := e.c
	// []byte pools of this code base: length and capacity as New makes them.
	n := e.freshVal(st, intT, "poollen").(*Term)
	e.newFrontier(st)
	r := e.alloc(st)
	e.setMemArr(st, r, byteT, Comp{"", sInt, byteT, ""}, e.freshArr(st, "poolmem", c.arr(sInt, sInt)))
	e.assume(c.And(c.Le(c.zero, n), c.Le(n, c.Big(maxLen))))
	e.assume(c.Not(c.Select(e.hget(st, "g:released", sBool), r)))
	s := &SliceV{r, c.zero, n, n}
	if ln, ok := e.poolLen(cs, st); ok {
		s = &SliceV{r, c.zero, ln, ln}
	}
	cs.k(st, []Val{e.box(st, s, byteSliceT)})
}

// poolLen: all slices in a bPool have the pool's slice length (bPool.Put enforces it
// on entry, newBPool's New function creates them so).
func (e *Exec) poolLen(cs *CallSite, st *State) (*Term, bool) {
	p := cs.t(0)
	if p.op == "app" && strings.HasPrefix(p.name, "emb!") && strings.HasSuffix(p.name, ".Pool") {
		owner := p.args[0]
		v := e.getF(st, owner, "contentenc.bPool", "sliceLen").(*Term)
		return v, true
	}
	return nil, false
}

func sprintfModel(cs *CallSite) {
	e := cs.e
	c := e.c
	if f, ok := c.litOf[cs.t(0)]; ok {
		if av := e.ifaceElems(cs.st, cs.args[1].(*SliceV), strings.Count(f, "%")); av != nil {
			if r := e.format(cs.st, f, av); r != nil {
				cs.ret(r)
				return
			}
		}
	}
	cs.ret(e.freshSeq("sprintf"))
}

// format: a constant format of %s (strings, bytes) and %x (bytes, strings).
func (e *Exec) format(st *State, f string, av []*IfaceV) *Term {
	c := e.c
	out := c.Lit("")
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			return c.Cat(out, c.Lit(f))
		}
		if i > 0 {
			out = c.Cat(out, c.Lit(f[:i]))
		}
		if i+1 >= len(f) || len(av) == 0 {
			return nil
		}
		x, ok := e.strOf(av[0])
		if !ok {
			x, ok = e.bytesOf(st, av[0])
		}
		if !ok {
			return nil
		}
		switch f[i+1] {
		case 's':
		case 'x':
			x = e.uf("hexf", x)
		default:
			return nil
		}
		out = c.Cat(out, x)
		f, av = f[i+2:], av[1:]
	}
	return out
}

func (e *Exec) ifaceElems(st *State, s *SliceV, n int) []*IfaceV {
	if !s.len.isInt() || s.len.val.Int64() != int64(n) {
		return nil
	}
	it := types.NewInterfaceType(nil, nil)
	var out []*IfaceV
	for i := 0; i < n; i++ {
		out = append(out, e.load(st, &AddrV{key: memKey(it), ref: s.base, idx: e.c.AddI(s.off, int64(i)), typ: it}, it).(*IfaceV))
	}
	return out
}
func (e *Exec) strOf(v *IfaceV) (*Term, bool) {
	if v.tag == e.tagOf(stringT) {
		return e.unbox(v, stringT).(*Term), true
	}
	return nil, false
}
func (e *Exec) bytesOf(st *State, v *IfaceV) (*Term, bool) {
	if v.tag == e.tagOf(byteSliceT) {
		return e.content(st, e.unbox(v, byteSliceT).(*SliceV)), true
	}
	return nil, false
}
