package main

import (
	"go/token"
	"strings"
)

// Models of the cryptographic libraries (trusted; listed in the evidence).
// The primitives are uninterpreted functions declared in contracts/content.gvc.

func init() {
	m := func(names string, f model) {
		for _, n := range strings.Fields(names) {
			models[n] = f
		}
	}
	m("crypto/cipher.AEAD.Open", func(cs *CallSite) {
		e := cs.e
		c := e.c
		a := cs.recv
		dst, nonce, ct, ad := cs.sl(0), cs.sl(1), cs.sl(2), cs.sl(3)
		e.mustNotPanic(c.Ne(a.tag, c.zero), "nil AEAD", cs.pos)
		e.mustNotPanic(c.Eq(nonce.len, e.uf("noncesize", a.pay)), "incorrect nonce length given to the AEAD", cs.pos)
		e.mustNotPanic(c.Or(c.Eq(dst.cap, dst.len), c.Ne(dst.base, ct.base), c.Eq(c.Add(dst.off, dst.len), ct.off)), "output buffer overlaps the ciphertext", cs.pos)
		n, s, d := e.content(cs.st, nonce), e.content(cs.st, ct), e.content(cs.st, ad)
		ok := e.uf("aopenok", a.pay, n, s, d)
		e.branch(ok, func() {
			p := e.uf("aopen", a.pay, n, s, d)
			e.assume(c.Eq(c.Add(c.SLen(p), c.Int(16)), c.SLen(s)))
			e.appendSeq(cs.st.clone(), dst, p, func(st *State, r *SliceV) {
				cs.k(st, []Val{r, e.nilErr()})
			})
		}, func() {
			st := cs.st.clone()
			// the output area behind dst may have been overwritten
			e.scratch(st, dst)
			r := e.freshVal(st, byteSliceT, "openfail").(*SliceV)
			cs.k(st, []Val{r, e.someErr(st, "openerr")})
		})
	})
	m("crypto/cipher.AEAD.Seal", func(cs *CallSite) {
		e := cs.e
		c := e.c
		a := cs.recv
		dst, nonce, pt, ad := cs.sl(0), cs.sl(1), cs.sl(2), cs.sl(3)
		e.mustNotPanic(c.Ne(a.tag, c.zero), "nil AEAD", cs.pos)
		e.mustNotPanic(c.Eq(nonce.len, e.uf("noncesize", a.pay)), "incorrect nonce length given to the AEAD", cs.pos)
		e.mustNotPanic(c.Or(c.Eq(dst.cap, dst.len), c.Ne(dst.base, pt.base), c.Eq(c.Add(dst.off, dst.len), pt.off)), "output buffer overlaps the plaintext", cs.pos)
		s := e.uf("aseal", a.pay, e.content(cs.st, nonce), e.content(cs.st, pt), e.content(cs.st, ad))
		e.assume(c.Eq(c.SLen(s), c.Add(c.SLen(e.content(cs.st, pt)), c.Int(16))))
		e.appendSeq(cs.st.clone(), dst, s, func(st *State, r *SliceV) { cs.k(st, []Val{r}) })
	})
	m("crypto/aes.NewCipher", func(cs *CallSite) {
		e := cs.e
		c := e.c
		k := cs.sl(0)
		ok := c.Or(c.Eq(k.len, c.Int(16)), c.Eq(k.len, c.Int(24)), c.Eq(k.len, c.Int(32)))
		e.branch(ok, func() {
			st := cs.st.clone()
			r := e.opaque(st, "!aes.Block")
			e.assume(c.Eq(e.uf("blkkey", r.pay), e.content(cs.st, k)))
			cs.k(st, []Val{r, e.nilErr()})
		}, func() {
			st := cs.st.clone()
			cs.k(st, []Val{e.nilErr(), e.someErr(st, "aeserr")})
		})
	})
	m("crypto/cipher.NewGCMWithNonceSize", func(cs *CallSite) {
		e := cs.e
		c := e.c
		b, n := cs.args[0].(*IfaceV), cs.t(1)
		e.mustNotPanic(c.Ne(b.tag, c.zero), "nil cipher.Block", cs.pos)
		e.branch(c.Lt(c.zero, n), func() {
			st := cs.st.clone()
			r := e.opaque(st, "!gcm")
			e.assume(c.Eq(e.uf("aeadkey", r.pay), e.uf("blkkey", b.pay)))
			e.assume(c.Eq(e.uf("noncesize", r.pay), n))
			cs.k(st, []Val{r, e.nilErr()})
		}, func() {
			st := cs.st.clone()
			cs.k(st, []Val{e.nilErr(), e.someErr(st, "gcmerr")})
		})
	})
	m("github.com/rfjakob/eme.New", func(cs *CallSite) {
		e := cs.e
		b := cs.args[0].(*IfaceV)
		e.mustNotPanic(e.c.Ne(b.tag, e.c.zero), "nil cipher.Block", cs.pos)
		st := cs.st.clone()
		r := e.alloc(st)
		e.assume(e.c.Eq(e.uf("emekey", r), e.uf("blkkey", b.pay)))
		cs.k(st, []Val{r})
	})
	m("golang.org/x/crypto/hkdf.New", func(cs *CallSite) {
		e := cs.e
		st := cs.st.clone()
		r := e.opaque(st, "!hkdf")
		h := "?"
		if f, ok := cs.args[0].(*FuncV); ok && f.fn != nil {
			h = fname(f.fn)
		}
		for i, n := range []string{"hkhash", "hksecret", "hksalt", "hkinfo"} {
			var x *Term
			if i == 0 {
				x = e.c.Lit(h)
			} else {
				x = cs.seq(i)
			}
			e.assume(e.c.Eq(e.uf(n, r.pay), x))
		}
		e.gwrite(st, "hkread", e.c.zero, r.pay)
		cs.k(st, []Val{r})
	})
	randRead := func(cs *CallSite, p *SliceV) {
		e := cs.e
		c := e.c
		// Since Go 1.24 Read never returns an error; older versions may.
		e.either("rand.Read", func(st *State) {
			s := e.freshSeq("random")
			e.assume(c.Eq(c.SLen(s), p.len))
			e.assume(e.uf("israndom", s))
			e.setContent(st, p, c.zero, s)
			cs.k(st, []Val{p.len, e.nilErr()})
		}, func(st *State) {
			n := c.Fresh("rdn", sInt)
			MarkNonneg(n)
			e.assume(c.Le(n, p.len))
			e.scratchAll(st, p)
			cs.k(st, []Val{n, e.someErr(st, "randerr")})
		}, cs.st)
	}
	readFrom := func(cs *CallSite, a *IfaceV, p *SliceV, full bool) {
		e := cs.e
		c := e.c
		if a.tag == c.Int(int64(e.typeID("!ext:crypto/rand.Reader", nil))) {
			randRead(cs, p)
			return
		}
		e.mustNotPanic(c.Ne(a.tag, c.zero), "nil io.Reader", cs.pos)
		generic := func() {
			st := cs.st.clone()
			n := c.Fresh("rdn", sInt)
			MarkNonneg(n)
			e.assume(c.Le(n, p.len))
			e.scratchAll(st, p)
			err := e.anyErr(st, "rderr")
			if full {
				e.assume(c.Eq(c.Eq(n, p.len), c.Eq(err.tag, c.zero)))
			}
			cs.k(st, []Val{n, err})
		}
		if a.tag != c.Int(int64(e.typeID("!hkdf", nil))) {
			generic()
			return
		}
		pos := e.gread(cs.st, "hkread", a.pay)
		e.branch(c.And(c.Eq(pos, c.zero), c.Le(p.len, c.Int(255*32))), func() {
			st := cs.st.clone()
			out := e.uf("hkdfout", e.uf("hkhash", a.pay), e.uf("hksecret", a.pay), e.uf("hksalt", a.pay), e.uf("hkinfo", a.pay), p.len)
			e.assume(c.Eq(c.SLen(out), p.len))
			e.setContent(st, p, c.zero, out)
			e.gwrite(st, "hkread", c.Add(pos, p.len), a.pay)
			cs.k(st, []Val{p.len, e.nilErr()})
		}, generic)
	}
	m("io.Reader.Read", func(cs *CallSite) { readFrom(cs, cs.recv, cs.sl(0), false) })
	m("io.ReadFull", func(cs *CallSite) { readFrom(cs, cs.args[0].(*IfaceV), cs.sl(1), true) })
	m("crypto/sha512.Sum512", func(cs *CallSite) {
		e := cs.e
		st := cs.st.clone()
		out := e.uf("sha512f", cs.seq(0))
		e.assume(e.c.Eq(e.c.SLen(out), e.c.Int(64)))
		cs.k(st, []Val{&ArrayV{elem: byteT, n: 64, comps: []*Term{e.c.Splice(e.c.ConstArr(sInt, e.c.zero), e.c.zero, out)}}})
	})
	m("crypto/rand.Read", func(cs *CallSite) { randRead(cs, cs.sl(0)) })
	m("github.com/jacobsa/crypto/siv.Encrypt", func(cs *CallSite) {
		e := cs.e
		c := e.c
		dst, key, p := cs.sl(0), cs.seq(1), cs.seq(2)
		as := e.sivAD(cs, 3)
		kl := c.SLen(key)
		e.branch(c.Or(c.Eq(kl, c.Int(32)), c.Eq(kl, c.Int(48)), c.Eq(kl, c.Int(64))), func() {
			s := e.uf("sivenc", key, p, as[0], as[1])
			e.assume(c.Eq(c.SLen(s), c.Add(c.SLen(p), c.Int(16))))
			e.appendSeq(cs.st.clone(), dst, s, func(st *State, r *SliceV) { cs.k(st, []Val{r, e.nilErr()}) })
		}, func() {
			st := cs.st.clone()
			cs.k(st, []Val{e.freshVal(st, byteSliceT, "sivfail"), e.someErr(st, "siverr")})
		})
	})
	m("github.com/jacobsa/crypto/siv.Decrypt", func(cs *CallSite) {
		e := cs.e
		key, ct := cs.seq(0), cs.seq(1)
		as := e.sivAD(cs, 2)
		e.branch(e.uf("sivok", key, ct, as[0], as[1]), func() {
			st := cs.st.clone()
			p := e.uf("sivdec", key, ct, as[0], as[1])
			cs.k(st, []Val{e.makeBytes(st, p), e.nilErr()})
		}, func() {
			st := cs.st.clone()
			cs.k(st, []Val{e.nilSlice(), e.someErr(st, "siverr")})
		})
	})
}

func init() {
	// refill messages of the random prefetcher
	chanHooks["send:[]byte"] = func(e *Exec, st *State, ch *Term, v Val, pos token.Pos) {
		s := v.(*SliceV)
		tags := []string{"C24"}
		e.oblige("refill: 512 bytes", tags, e.c.Eq(s.len, e.c.Int(512)), pos)
		e.oblige("refill: random bytes", tags, e.uf("israndom", e.content(st, s)), pos)
		e.oblige("refill: memory that was not sent before", tags, e.c.Not(e.gread(st, "given", s.base)), pos)
		e.gwrite(st, "given", e.c.T, s.base)
	}
	recvHooks["[]byte"] = func(e *Exec, st *State, ch *Term, v Val, ok *Term, pos token.Pos) {
		s := v.(*SliceV)
		e.assume(ok)
		e.assume(e.c.Eq(s.len, e.c.Int(512)))
		e.assume(e.uf("israndom", e.content(st, s)))
		e.gwrite(st, "refilled", e.content(st, s), ch)
	}
}

func (e *Exec) nilSlice() *SliceV { return &SliceV{e.c.zero, e.c.zero, e.c.zero, e.c.zero} }

// sivAD: exactly two associated data strings.
func (e *Exec) sivAD(cs *CallSite, i int) [2]*Term {
	s := cs.sl(i)
	if !s.len.isInt() || s.len.val.Int64() != 2 {
		panic(unsupported("siv with an unknown number of associated strings"))
	}
	var out [2]*Term
	for k := range out {
		v := e.load(cs.st, &AddrV{key: memKey(byteSliceT), ref: s.base, idx: e.c.Add(s.off, e.c.Int(int64(k))), typ: byteSliceT}, byteSliceT)
		out[k] = e.content(cs.st, v.(*SliceV))
	}
	return out
}

// opaque: a new object of an unknown type behind an interface.
func (e *Exec) opaque(st *State, tag string) *IfaceV {
	return &IfaceV{e.c.Int(int64(e.typeID(tag, nil))), e.alloc(st)}
}

// scratchAll: p may hold anything afterwards.
func (e *Exec) scratchAll(st *State, p *SliceV) {
	junk := e.freshSeq("scratch")
	e.assume(e.c.Eq(e.c.SLen(junk), p.len))
	e.setContent(st, p, e.c.zero, junk)
}

// scratch: the capacity behind dst may be overwritten with anything.
func (e *Exec) scratch(st *State, dst *SliceV) {
	c := e.c
	n := c.Sub(dst.cap, dst.len)
	junk := e.freshSeq("scratch")
	e.assume(c.Eq(c.SLen(junk), n))
	e.setContent(st, dst, dst.len, junk)
}

func init() {
	// requester: has a ticket been received for the request sent last?
	chanHooks["send:requester.work"] = func(e *Exec, st *State, ch *Term, v Val, pos token.Pos) {
		e.gwrite(st, "k_ticket", e.c.F, e.c.zero)
	}
	recvHooks["*requester.workTicket"] = func(e *Exec, st *State, ch *Term, v Val, ok *Term, pos token.Pos) {
		e.gwrite(st, "k_ticket", ok, e.c.zero)
	}
}
