package main

import (
	"go/types"
	"reflect"
	"strings"
)

// Models of the libraries around start-up: JSON, struct validation, the SSH
// server (trusted; listed in the evidence).

// structOf: the struct a pointer in an interface value points to, if known.
func (e *Exec) structOf(v *IfaceV) (types.Type, *types.Struct) {
	if !v.tag.isInt() {
		return nil, nil
	}
	t := e.typeByID(int(v.tag.val.Int64()))
	if t == nil {
		return nil, nil
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return p.Elem(), s
}

// decoded: the value of type t after decoding data into one that was old.
// Strings, byte strings and integers that were zero become the named part of
// the document; unexported fields stay.
func (e *Exec) decoded(st *State, data *Term, path string, t types.Type, old Val) Val {
	c := e.c
	name := c.Lit(path)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{typ: t}
		o := old.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				v.fields = append(v.fields, o.fields[i])
				continue
			}
			p := f.Name()
			if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag != "" && strings.Split(tag, ",")[0] != "" {
				p = strings.Split(tag, ",")[0]
			}
			if path != "" {
				p = path + "." + p
			}
			v.fields = append(v.fields, e.decoded(st, data, p, f.Type(), o.fields[i]))
		}
		return v
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			s := e.uf("jsonseq", data, name)
			e.assume(c.Le(c.SLen(s), c.Big(maxLen)))
			return e.makeBytes(st, s)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n := e.uf("jsonlen", data, name)
			e.assume(c.And(c.Le(c.zero, n), c.Le(n, c.Big(maxLen))))
			r := e.alloc(st)
			a := e.freshArr(st, "json", c.arr(sInt, sSeq))
			j := c.BVar("j", sInt)
			x := e.uf("jsonelem", data, name, j)
			e.assume(c.Forall([]*Term{j}, c.Eq(c.Select(a, j), x), []*Term{c.Select(a, j)}))
			e.assume(c.Forall([]*Term{j}, c.Eq(c.Select(a, j), x), []*Term{x}))
			e.setMemArr(st, r, u.Elem(), Comp{"", sSeq, u.Elem(), ""}, a)
			return &SliceV{r, c.zero, n, n}
		}
	case *types.Basic:
		r := e.freshVal(st, t, "json")
		if u.Info()&types.IsString != 0 {
			o := old.(*Term)
			e.assume(c.Imp(c.Eq(c.SLen(o), c.zero), c.Eq(r.(*Term), e.uf("jsonseq", data, name))))
		}
		if u.Info()&types.IsInteger != 0 {
			e.assume(c.Imp(c.Eq(old.(*Term), c.zero), c.Eq(r.(*Term), e.uf("jsonint", data, name))))
		}
		return r
	}
	return e.freshVal(st, t, "json")
}

// requiredFilled: what a successful validation says about a struct.
func (e *Exec) requiredFilled(v *StructV, u *types.Struct) *Term {
	c := e.c
	g := c.T
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(u.Tag(i)).Get("validate")
		if tag == "-" {
			continue
		}
		if s, ok := f.Type().Underlying().(*types.Struct); ok && !strings.Contains(tag, "structonly") {
			g = c.And(g, e.requiredFilled(v.fields[i].(*StructV), s))
			continue
		}
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			continue
		}
		for _, x := range strings.Split(tag, ",") {
			if x == "omitempty" {
				break
			}
			if x == "required" || x == "file" {
				g = c.And(g, c.Lt(c.zero, c.SLen(v.fields[i].(*Term))))
			}
		}
	}
	return g
}

func init() {
	m := func(names string, f model) {
		for _, n := range strings.Fields(names) {
			models[n] = f
		}
	}
	m("encoding/json.Unmarshal", func(cs *CallSite) {
		e := cs.e
		v, ok := cs.args[1].(*IfaceV)
		var T types.Type
		if ok {
			T, _ = e.structOf(v)
		}
		if T == nil {
			e.unknownCall(cs.name, cs.sig, cs.args, cs.st, cs.k)
			return
		}
		data := cs.seq(0)
		e.mustNotPanic(e.c.Ne(v.pay, e.c.zero), "decoding into a nil pointer", cs.pos)
		e.either("json.Unmarshal", func(st *State) {
			e.newFrontier(st)
			e.store(st, v.pay, T, e.decoded(st, data, "", T, e.load(st, v.pay, T)))
			if tkey(T) == "config.Config" {
				e.gwrite(st, "k_cdata", data, e.c.zero)
			}
			cs.k(st, []Val{e.nilErr()})
		}, func(st *State) {
			e.newFrontier(st)
			old := e.load(st, v.pay, T)
			e.store(st, v.pay, T, e.decoded(st, e.freshSeq("badjson"), "", T, old))
			cs.k(st, []Val{e.someErr(st, "jsonerr")})
		}, cs.st)
	})
	m("gopkg.in/go-playground/validator.v9.New", func(cs *CallSite) {
		st := cs.st.clone()
		cs.k(st, []Val{cs.e.alloc(st)})
	})
	m("(*gopkg.in/go-playground/validator.v9.Validate).Struct", func(cs *CallSite) {
		e := cs.e
		v, ok := cs.args[1].(*IfaceV)
		var T types.Type
		var u *types.Struct
		if ok {
			T, u = e.structOf(v)
		}
		if T == nil {
			e.unknownCall(cs.name, cs.sig, cs.args, cs.st, cs.k)
			return
		}
		st := cs.st.clone()
		err := e.anyErr(st, "validate")
		e.assume(e.c.Imp(e.c.Eq(err.tag, e.c.zero), e.requiredFilled(e.load(st, v.pay, T).(*StructV), u)))
		cs.k(st, []Val{err})
	})
	// A host key check is a function of the callback and its arguments.
	m("dyncall:golang.org/x/crypto/ssh.HostKeyCallback", func(cs *CallSite) {
		e := cs.e
		f, host, addr, key := cs.t(0), cs.t(1), cs.args[2].(*IfaceV), cs.args[3].(*IfaceV)
		st := cs.st.clone()
		err := e.anyErr(st, "hostkey")
		e.assume(e.c.Eq(e.c.Eq(err.tag, e.c.zero), e.uf("hostkeyok", f, host, addr.pay, key.pay)))
		cs.k(st, []Val{err})
	})
	m("crypto/subtle.ConstantTimeCompare", func(cs *CallSite) {
		c := cs.e.c
		cs.k(cs.st, []Val{c.Ite(c.Eq(cs.seq(0), cs.seq(1)), c.one, c.zero)})
	})
	// Serving starts only with the configured remote behind it.
	m("net.Listener.Accept", func(cs *CallSite) {
		e := cs.e
		c := e.c
		st := cs.st.clone()
		e.newFrontier(st)
		tags := []string{"C21"}
		if e.interested(tags) {
			g := func(n string) *Term { return e.gread(st, n, c.zero) }
			conf := g("k_cdata")
			part := func(n string) *Term { return e.uf("jsonseq", conf, c.Lit(n)) }
			ob := func(n string, t *Term) { e.oblige(n, tags, t, cs.pos) }
			ob("the configured known-hosts file was loaded", c.And(g("k_kh_ok"), c.Eq(g("k_kh_n"), c.one), c.Eq(g("k_kh_path"), part("KnownHostsPath"))))
			ob("the configured private key was loaded", c.And(g("k_sk_ok"), c.Eq(g("k_sk_path"), part("Remote.PrivateKeyPath"))))
			ob("the volume at the configured root was opened", c.And(g("k_in_ok"), c.Eq(g("k_in_root"), part("Remote.FileRoot"))))
			ob("the volume is read through the SSH backend", c.Eq(g("k_in_tag"), e.tagOf(types.NewPointer(e.w.findType("backend.Provider")))))
			pool := e.getF(st, g("k_in_pay"), "backend.Provider", "p")
			ob("the remote is the configured one", c.Eq(e.getF(st, pool, "backend.pool", "remoteAddr").(*Term), part("Remote.Addr")))
			cfg := e.getF(st, pool, "backend.pool", "clientConfig")
			const T = "golang.org/x/crypto/ssh.ClientConfig"
			ob("the user is the configured one", c.Eq(e.getF(st, cfg, T, "User").(*Term), part("Remote.User")))
			au := e.getF(st, cfg, T, "Auth").(*SliceV)
			ob("one way to authenticate", c.Eq(au.len, c.one))
			at := e.fieldType(T, "Auth").Underlying().(*types.Slice).Elem()
			a := e.load(st, &AddrV{key: memKey(at), ref: au.base, idx: au.off, typ: at}, at).(*IfaceV)
			ob("authenticates with the configured key", c.And(c.Eq(e.gread(st, "k_ak_n", a.pay), c.one), c.Eq(e.gread(st, "k_ak_key", a.pay), g("k_sk_pay"))))
			cb := e.flatten(e.getF(st, cfg, T, "HostKeyCallback"), e.fieldType(T, "HostKeyCallback"))[0]
			if fn, ok := e.constFunc(cb); !ok {
				ob("host keys are checked against the known-hosts file", c.Eq(cb, g("k_kh_fn")))
			} else {
				e.push()
				s2 := st.clone()
				ps := fn.fn.Signature.Params()
				var args []Val
				for i := 0; i < ps.Len(); i++ {
					args = append(args, e.freshVal(s2, ps.At(i).Type(), "hk"))
				}
				right := e.uf("hostkeyok", g("k_kh_fn"), args[0].(*Term), args[1].(*IfaceV).pay, args[2].(*IfaceV).pay)
				s2 = e.anyTime(s2, func(s *State, k kont) { e.callFn(cs.fr, fn.fn, fn.binds, args, cs.pos, s, k, cs.cc) })
				e.callFn(cs.fr, fn.fn, fn.binds, args, cs.pos, s2, func(s3 *State, rs []Val) {
					ok := c.Eq(rs[0].(*IfaceV).tag, c.zero)
					ob("a host key is accepted only if the known-hosts file has it", c.Imp(ok, right))
				}, cs.cc)
				e.pop()
			}
		}
		// from here on the process answers clients
		save, was := e.noPanic, e.serving
		if e.interested([]string{"C07"}) {
			e.noPanic, e.serving = true, true
		}
		cs.k(st, e.freshResults(st, cs.sig, "accept"))
		e.noPanic, e.serving = save, was
	})
	// The server takes logins as its configuration says; what that is must
	// be exactly the configured user name and password.
	m("golang.org/x/crypto/ssh.NewServerConn", func(cs *CallSite) {
		e := cs.e
		c := e.c
		cfg := cs.args[1]
		tags := []string{"C20"}
		const T = "golang.org/x/crypto/ssh.ServerConfig"
		st := cs.st.clone()
		e.newFrontier(st)
		if e.interested([]string{"C07"}) {
			if fn, ok := e.constFunc(e.flatten(e.getF(st, cfg, T, "PasswordCallback"), e.fieldType(T, "PasswordCallback"))[0]); ok {
				// whatever a client offers
				e.push()
				s2 := st.clone()
				meta := e.freshVal(s2, fn.fn.Signature.Params().At(0).Type(), "meta").(*IfaceV)
				e.assume(c.Ne(meta.tag, c.zero))
				args := []Val{meta, e.makeBytes(s2, e.freshSeq("given"))}
				run := func(s *State, k kont) { e.callFn(cs.fr, fn.fn, fn.binds, args, cs.pos, s, k, cs.cc) }
				saveEx := e.exitK
				run(e.anyTime(s2, run), func(*State, []Val) {})
				e.exitK = saveEx
				e.pop()
			}
		}
		if e.interested(tags) {
			e.oblige("no login without authentication", tags, c.Not(e.getF(st, cfg, T, "NoClientAuth").(*Term)), cs.pos)
			for _, f := range []string{"PublicKeyCallback", "KeyboardInteractiveCallback"} {
				v := e.flatten(e.getF(st, cfg, T, f), e.fieldType(T, f))[0]
				e.oblige("no login other than by password ("+f+")", tags, c.Eq(v, c.zero), cs.pos)
			}
			g := e.getF(st, cfg, T, "GSSAPIWithMICConfig").(*Term)
			e.oblige("no login other than by password (GSSAPI)", tags, c.Eq(g, c.zero), cs.pos)
			conf := e.gread(st, "k_cdata", c.zero)
			user, pass := e.uf("jsonseq", conf, c.Lit("ProxyUser")), e.uf("jsonseq", conf, c.Lit("ProxyPassword"))
			e.oblige("the configuration names a user", tags, c.Lt(c.zero, c.SLen(user)), cs.pos)
			e.oblige("the configuration has a password", tags, c.Lt(c.zero, c.SLen(pass)), cs.pos)
			cb := e.flatten(e.getF(st, cfg, T, "PasswordCallback"), e.fieldType(T, "PasswordCallback"))[0]
			fn, ok := e.constFunc(cb)
			if !ok {
				e.oblige("logins are checked by a function of this program", tags, c.F, cs.pos)
			} else {
				e.push()
				s2 := st.clone()
				mt := fn.fn.Signature.Params()
				meta := e.freshVal(s2, mt.At(0).Type(), "meta").(*IfaceV)
				e.assume(c.Ne(meta.tag, c.zero))
				given := e.makeBytes(s2, e.freshSeq("given"))
				who := e.pureMethod(meta, "User").v.(*Term)
				pw := e.content(s2, given)
				right := c.And(c.Eq(who, user), c.Eq(pw, pass))
				s2 = e.anyTime(s2, func(s *State, k kont) {
					e.callFn(cs.fr, fn.fn, fn.binds, []Val{meta, given}, cs.pos, s, k, cs.cc)
				})
				saveEx := e.exitK
				e.callFn(cs.fr, fn.fn, fn.binds, []Val{meta, given}, cs.pos, s2, func(s3 *State, rs []Val) {
					ok := c.Eq(rs[1].(*IfaceV).tag, c.zero)
					e.oblige("a login is accepted only with the configured user name and password", tags, c.Imp(ok, right), cs.pos)
					e.oblige("the configured user name and password are accepted", tags, c.Imp(right, ok), cs.pos)
				}, cs.cc)
				e.exitK = saveEx
				e.pop()
			}
		}
		cs.k(st, e.freshResults(st, cs.sig, "serverconn"))
	})
}

func (e *Exec) fieldType(tn, f string) types.Type {
	s := e.w.findType(tn).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	panic(unsupported("field " + tn + "." + f))
}
