package main

import "strings"

// Models of further functions of the standard library, which the code does not
// use today but an equivalent version of it might.

func init() {
	m := func(names string, f model) {
		for _, n := range strings.Fields(names) {
			models[n] = f
		}
	}
	one := func(cs *CallSite, i int) *Term { return cs.e.c.Unit(cs.t(i)) }
	m("bytes.ContainsAny strings.ContainsAny", func(cs *CallSite) {
		if t := cs.e.containsAny(cs.seq(0), cs.seq(1)); t != nil {
			cs.ret(t)
			return
		}
		cs.ret(cs.e.c.Fresh("any", sBool))
	})
	m("strings.ContainsRune bytes.ContainsRune", func(cs *CallSite) {
		if v := cs.t(1); v.isInt() && v.val.IsInt64() && v.val.Int64() >= 0 && v.val.Int64() < 128 {
			cs.ret(cs.e.contains(cs.seq(0), one(cs, 1)))
			return
		}
		cs.ret(cs.e.c.Fresh("any", sBool))
	})
	index := func(cs *CallSite, s *Term, in func(at *Term) *Term) {
		e, c := cs.e, cs.e.c
		i := c.Fresh("index", sInt)
		j := c.BVar("j", sInt)
		at := c.App("s.at", sInt, s, j)
		none := func(hi *Term) *Term {
			return c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.zero, j), c.Lt(j, hi)), c.Not(in(at))), []*Term{at})
		}
		e.either("index", func(st *State) {
			e.assume(none(c.SLen(s)))
			cs.k(st, []Val{c.Int(-1)})
		}, func(st *State) {
			e.assume(c.And(c.Le(c.zero, i), c.Lt(i, c.SLen(s)), in(c.App("s.at", sInt, s, i)), none(i)))
			cs.k(st, []Val{i})
		}, cs.st)
	}
	m("bytes.IndexByte strings.IndexByte", func(cs *CallSite) {
		b := cs.t(1)
		index(cs, cs.seq(0), func(at *Term) *Term { return cs.e.c.Eq(at, b) })
	})
	m("strings.IndexRune bytes.IndexRune", func(cs *CallSite) {
		v := cs.t(1)
		if v.isInt() && v.val.IsInt64() && v.val.Int64() >= 0 && v.val.Int64() < 128 {
			index(cs, cs.seq(0), func(at *Term) *Term { return cs.e.c.Eq(at, v) })
			return
		}
		cs.e.anyIndex(cs)
	})
	m("strings.Index bytes.Index", func(cs *CallSite) {
		p := cs.seq(1)
		if n := cs.e.c.SLen(p); n.isInt() && n.val.Int64() == 1 {
			index(cs, cs.seq(0), func(at *Term) *Term { return cs.e.c.Eq(at, cs.e.c.SAt(p, cs.e.c.zero)) })
			return
		}
		cs.e.anyIndex(cs)
	})
	m("strings.IndexAny bytes.IndexAny", func(cs *CallSite) {
		l, ok := cs.e.c.litOf[cs.seq(1)]
		for i := 0; i < len(l); i++ {
			ok = ok && l[i] < 128
		}
		if !ok {
			cs.e.anyIndex(cs)
			return
		}
		index(cs, cs.seq(0), func(at *Term) *Term {
			var out []*Term
			for i := 0; i < len(l); i++ {
				out = append(out, cs.e.c.Eq(at, cs.e.c.Int(int64(l[i]))))
			}
			return cs.e.c.Or(out...)
		})
	})
	m("bytes.HasPrefix", func(cs *CallSite) {
		c := cs.e.c
		s, p := cs.seq(0), cs.seq(1)
		cs.ret(c.And(c.Le(c.SLen(p), c.SLen(s)), c.Eq(c.SSub(s, c.zero, c.SLen(p)), p)))
	})
	m("bytes.HasSuffix", func(cs *CallSite) {
		c := cs.e.c
		s, p := cs.seq(0), cs.seq(1)
		cs.ret(c.And(c.Le(c.SLen(p), c.SLen(s)), c.Eq(c.SSub(s, c.Sub(c.SLen(s), c.SLen(p)), c.SLen(p)), p)))
	})
	m("strings.TrimSuffix strings.TrimPrefix", func(cs *CallSite) {
		e, c := cs.e, cs.e.c
		s, p := cs.seq(0), cs.seq(1)
		d := c.Sub(c.SLen(s), c.SLen(p))
		lo, rest := d, c.zero
		if cs.name == "strings.TrimPrefix" {
			lo, rest = c.zero, c.SLen(p)
		}
		e.branch(c.And(c.Le(c.SLen(p), c.SLen(s)), c.Eq(c.SSub(s, lo, c.SLen(p)), p)),
			func() { cs.ret(c.SSub(s, rest, d)) }, func() { cs.ret(s) })
	})
	m("strings.Compare bytes.Compare", func(cs *CallSite) {
		c := cs.e.c
		r := c.Fresh("cmp", sInt)
		cs.e.assume(c.And(c.Le(c.Int(-1), r), c.Le(r, c.one), c.Eq(c.Eq(r, c.zero), c.Eq(cs.seq(0), cs.seq(1)))))
		cs.ret(r)
	})
	m("crypto/hmac.Equal", func(cs *CallSite) { cs.ret(cs.e.c.Eq(cs.seq(0), cs.seq(1))) })
	m("bytes.Repeat strings.Repeat", func(cs *CallSite) {
		e, c := cs.e, cs.e.c
		s, n := cs.seq(0), cs.t(1)
		e.mustNotPanic(c.Le(c.zero, n), "negative Repeat count", cs.pos)
		st := cs.st.clone()
		var r *Term
		if l := c.SLen(s); l.isInt() && l.val.Int64() == 1 {
			r = c.Rep(c.SAt(s, c.zero), n)
		} else {
			r = e.freshSeq("repeat")
			e.assume(c.Eq(c.SLen(r), c.Mul(c.SLen(s), n)))
		}
		if cs.name == "bytes.Repeat" {
			cs.k(st, []Val{e.makeBytes(st, r)})
			return
		}
		cs.k(st, []Val{r})
	})
	m("(*bytes.Buffer).Truncate", func(cs *CallSite) {
		e, st := cs.e, cs.st.clone()
		c := e.c
		b, rest, off := bufBytes(e, st, cs.args[0])
		n := cs.t(1)
		e.mustNotPanic(c.And(c.Le(c.zero, n), c.Le(n, rest.len)), "truncation out of range", cs.pos)
		e.branch(c.Eq(n, c.zero), func() {
			e.setF(st, cs.args[0], "bytes.Buffer", "buf", &SliceV{b.base, b.off, c.zero, b.cap})
			e.setF(st, cs.args[0], "bytes.Buffer", "off", c.zero)
			cs.k(st, nil)
		}, func() {
			s := st.clone()
			e.setF(s, cs.args[0], "bytes.Buffer", "buf", &SliceV{b.base, b.off, c.Add(off, n), b.cap})
			cs.k(s, nil)
		})
	})
	m("(*bytes.Buffer).Grow", func(cs *CallSite) {
		e, c := cs.e, cs.e.c
		b, rest, _ := bufBytes(e, cs.st, cs.args[0])
		e.mustNotPanic(c.Le(c.zero, cs.t(1)), "negative count for Grow", cs.pos)
		e.either("buffer growth", func(s *State) { cs.k(s, nil) }, func(s *State) {
			out := e.makeBytes(s, e.content(cs.st, rest))
			cp := c.Fresh("bufcap", sInt)
			MarkNonneg(cp)
			e.assume(c.And(c.Le(c.Add(out.len, cs.t(1)), cp), c.Lt(b.cap, cp), c.Le(cp, c.Big(maxLen))))
			out.cap = cp
			e.setF(s, cs.args[0], "bytes.Buffer", "buf", out)
			e.setF(s, cs.args[0], "bytes.Buffer", "off", c.zero)
			cs.k(s, nil)
		}, cs.st)
	})
}

func (e *Exec) anyIndex(cs *CallSite) {
	c := e.c
	i := c.Fresh("index", sInt)
	e.assume(c.And(c.Le(c.Int(-1), i), c.Lt(i, c.Add(c.SLen(cs.seq(0)), c.one))))
	cs.ret(i)
}

// containsAny: s has a byte of the given characters; nil unless those are
// known and ASCII.
func (e *Exec) containsAny(s, chars *Term) *Term {
	l, ok := e.c.litOf[chars]
	if !ok {
		return nil
	}
	var out []*Term
	for i := 0; i < len(l); i++ {
		if l[i] >= 128 {
			return nil
		}
		out = append(out, e.contains(s, e.c.Lit(l[i:i+1])))
	}
	return e.c.Or(out...)
}
