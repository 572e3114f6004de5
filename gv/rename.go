package main

// Alpha-renaming. The contracts name unexported functions, types and fields.
// Where the source calls one of them differently, the identifiers are renamed
// back (types.Info tells which identifiers denote the object) in an overlay of
// the source, which is then loaded in its place. Renaming an unexported object
// to a name that is free in its package changes no behaviour; the evidence
// lists what was renamed. contracts/names.json holds the names and shapes the
// contracts were written for; it only guides the matching.

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/printer"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type shapeField struct{ Name, Type string }
type shapeFunc struct {
	Sig    string
	Params []string // names, receiver first
	Toks   map[string]int
}
type shapes struct {
	Types  map[string]string       // unexported named type -> underlying type
	Fields map[string][]shapeField // struct type -> fields
	Vars   map[string]string       // unexported package variable -> type
	Funcs  map[string]shapeFunc    // function or method -> signature, body tokens
}

func bodyToks(fset *token.FileSet, b *ast.BlockStmt) map[string]int {
	out := map[string]int{}
	if b == nil {
		return out
	}
	var buf bytes.Buffer
	if printer.Fprint(&buf, fset, b) != nil {
		return out
	}
	fs := token.NewFileSet()
	var s scanner.Scanner
	s.Init(fs.AddFile("", fs.Base(), buf.Len()), buf.Bytes(), nil, 0)
	for {
		_, t, l := s.Scan()
		if t == token.EOF {
			return out
		}
		if l == "" || l == "\n" || t.IsOperator() {
			l = t.String()
		}
		out[l]++
	}
}

func likeness(a, b map[string]int) float64 {
	n, both := 0, 0
	for k, v := range a {
		n += v
		if w := b[k]; w < v {
			both += w
		} else {
			both += v
		}
	}
	for _, v := range b {
		n += v
	}
	if n == 0 {
		return 0
	}
	return 2 * float64(both) / float64(n)
}

func typeStr(t types.Type) string { return short(types.TypeString(t, nil)) }

// sigStr: parameter and result types, without names.
func sigStr(s *types.Signature) string {
	var b strings.Builder
	tup := func(t *types.Tuple) {
		b.WriteByte('(')
		for i := 0; i < t.Len(); i++ {
			b.WriteString(typeStr(t.At(i).Type()) + ",")
		}
		b.WriteByte(')')
	}
	tup(s.Params())
	tup(s.Results())
	if s.Variadic() {
		b.WriteByte('v')
	}
	return b.String()
}

func parNames(s *types.Signature) (out []string) {
	if r := s.Recv(); r != nil {
		out = append(out, r.Name())
	}
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Name())
	}
	return
}

// reordered: the contract's parameter names in the order the source now has
// them, if the source has the same parameters in another order.
func reordered(params, was, now []string) []string {
	if len(params) != len(was) || len(was) != len(now) {
		return params
	}
	at := map[string]int{}
	for i, n := range was {
		if n == "" || n == "_" {
			return params
		}
		at[n] = i
	}
	out := make([]string, len(now))
	used := map[int]bool{}
	for i, n := range now {
		j, ok := at[n]
		if !ok || used[j] {
			return params
		}
		used[j] = true
		out[i] = params[j]
	}
	return out
}

type found struct {
	sh   *shapes
	objs map[string]types.Object // "t:"type, "f:"function, "T#field"
}

func shapesOf(fset *token.FileSet, pkgs []*packages.Package) *found {
	f := &found{&shapes{map[string]string{}, map[string][]shapeField{}, map[string]string{}, map[string]shapeFunc{}}, map[string]types.Object{}}
	for _, p := range pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if v, ok := sc.Lookup(n).(*types.Var); ok && !v.Exported() && n != "_" {
				k := short(p.Types.Path()) + "." + n
				f.sh.Vars[k] = typeStr(v.Type())
				f.objs["v:"+k] = v
			}
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			k := typeStr(tn.Type())
			if !tn.Exported() {
				u := typeStr(tn.Type().Underlying())
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					u = "struct"
					for i := 0; i < s.NumFields(); i++ {
						u += " " + typeStr(s.Field(i).Type())
					}
				}
				f.sh.Types[k] = regexp.MustCompile(regexp.QuoteMeta(k)+`\b`).ReplaceAllString(u, "SELF")
				f.objs["t:"+k] = tn
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f.sh.Fields[k] = append(f.sh.Fields[k], shapeField{s.Field(i).Name(), typeStr(s.Field(i).Type())})
					f.objs[k+"#"+s.Field(i).Name()] = s.Field(i)
				}
			}
		}
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.IsExported() || fd.Name.Name == "_" || fd.Name.Name == "init" || fd.Name.Name == "main" {
					continue
				}
				fn, ok := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				k := short(fn.FullName())
				f.sh.Funcs[k] = shapeFunc{sigStr(fn.Type().(*types.Signature)), parNames(fn.Type().(*types.Signature)), bodyToks(fset, fd.Body)}
				f.objs["f:"+k] = fn
			}
		}
	}
	return f
}

func beforeDot(s string) string { return s[:strings.LastIndexByte(s, '.')+1] }
func afterDot(s string) string  { return s[strings.LastIndexByte(s, '.')+1:] }

// match: what to rename, types first, then fields, then functions.
func (f *found) match(base *shapes) map[types.Object]string {
	out := map[types.Object]string{}
	taken := map[string]bool{}
	try := func(missing []string, cand func(m string) []string, obj func(c string) types.Object, name func(m string) string) {
		sort.Strings(missing)
		for _, m := range missing {
			var cs []string
			for _, c := range cand(m) {
				if !taken[c] {
					cs = append(cs, c)
				}
			}
			if len(cs) == 1 {
				taken[cs[0]] = true
				out[obj(cs[0])] = name(m)
			}
		}
	}
	var miss []string
	for k := range base.Types {
		if _, ok := f.sh.Types[k]; !ok {
			miss = append(miss, k)
		}
	}
	try(miss, func(m string) (cs []string) {
		for _, c := range sortedKeys(f.sh.Types) {
			if _, old := base.Types[c]; !old && beforeDot(c) == beforeDot(m) && f.sh.Types[c] == base.Types[m] {
				cs = append(cs, c)
			}
		}
		return
	}, func(c string) types.Object { return f.objs["t:"+c] }, afterDot)
	if len(out) > 0 {
		return out
	}
	for _, T := range sortedKeys(base.Fields) {
		old, now := map[string]bool{}, map[string]bool{}
		for _, x := range base.Fields[T] {
			old[x.Name] = true
		}
		for _, x := range f.sh.Fields[T] {
			now[x.Name] = true
		}
		byType := map[string][2][]string{}
		for _, x := range base.Fields[T] {
			if !now[x.Name] && !token.IsExported(x.Name) {
				e := byType[x.Type]
				e[0] = append(e[0], x.Name)
				byType[x.Type] = e
			}
		}
		for _, x := range f.sh.Fields[T] {
			if !old[x.Name] && !token.IsExported(x.Name) && x.Name != "_" {
				e := byType[x.Type]
				e[1] = append(e[1], x.Name)
				byType[x.Type] = e
			}
		}
		for _, e := range byType {
			if len(e[0]) == len(e[1]) { // several of one type: in their order
				for i := range e[0] {
					out[f.objs[T+"#"+e[1][i]]] = e[0][i]
				}
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	miss = nil
	for k := range base.Vars {
		if _, ok := f.sh.Vars[k]; !ok {
			miss = append(miss, k)
		}
	}
	try(miss, func(m string) (cs []string) {
		for _, c := range sortedKeys(f.sh.Vars) {
			if _, old := base.Vars[c]; !old && beforeDot(c) == beforeDot(m) && f.sh.Vars[c] == base.Vars[m] {
				cs = append(cs, c)
			}
		}
		return
	}, func(c string) types.Object { return f.objs["v:"+c] }, afterDot)
	miss = nil
	for k := range base.Funcs {
		if _, ok := f.sh.Funcs[k]; !ok {
			miss = append(miss, k)
		}
	}
	try(miss, func(m string) []string {
		best, at := 0.6, ""
		for _, c := range sortedKeys(f.sh.Funcs) {
			if _, old := base.Funcs[c]; old || beforeDot(c) != beforeDot(m) || f.sh.Funcs[c].Sig != base.Funcs[m].Sig {
				continue
			}
			if l := likeness(base.Funcs[m].Toks, f.sh.Funcs[c].Toks); l > best {
				best, at = l, c
			}
		}
		if at == "" {
			return nil
		}
		return []string{at}
	}, func(c string) types.Object { return f.objs["f:"+c] }, afterDot)
	return out
}

// rename applies the matches to the source text; nil if there are none.
func rename(fset *token.FileSet, pkgs []*packages.Package, base *shapes, text map[string][]byte) (map[string][]byte, []string) {
	m := shapesOf(fset, pkgs).match(base)
	if len(m) == 0 {
		return nil, nil
	}
	var notes []string
	for o, n := range m {
		if v, isField := o.(*types.Var); !isField || !v.IsField() {
			// the old name must be free wherever the object can be used
			for _, p := range pkgs {
				if p.Types != o.Pkg() {
					continue
				}
				for id, d := range p.TypesInfo.Defs {
					if d == nil || id.Name != n {
						continue
					}
					if v, ok := d.(*types.Var); ok && v.IsField() {
						continue
					}
					if fn, ok := d.(*types.Func); ok && fn.Type().(*types.Signature).Recv() != nil {
						continue
					}
					delete(m, o)
				}
			}
		}
		if _, ok := m[o]; ok {
			notes = append(notes, o.Name()+" is checked under the name "+n+" ("+short(o.Pkg().Path())+")")
		}
	}
	sort.Strings(notes)
	if len(m) == 0 {
		return nil, nil
	}
	return applyRename(fset, pkgs, m, text), notes
}

func applyRename(fset *token.FileSet, pkgs []*packages.Package, m map[types.Object]string, text map[string][]byte) map[string][]byte {
	type edit struct {
		off, n int
		to     string
	}
	edits := map[string][]edit{}
	for _, p := range pkgs {
		add := func(id *ast.Ident, o types.Object) {
			if to, ok := m[o]; ok && o != nil {
				q := fset.Position(id.Pos())
				edits[q.Filename] = append(edits[q.Filename], edit{q.Offset, len(id.Name), to})
			}
		}
		for id, o := range p.TypesInfo.Defs {
			add(id, o)
		}
		for id, o := range p.TypesInfo.Uses {
			add(id, o)
		}
	}
	out := map[string][]byte{}
	for k, v := range text {
		out[k] = v
	}
	for f, es := range edits {
		src, ok := text[f]
		if !ok {
			var err error
			if src, err = os.ReadFile(f); err != nil {
				return nil
			}
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
		var b bytes.Buffer
		at := 0
		for _, e := range es {
			if e.off < at {
				continue // the same identifier seen twice
			}
			b.Write(src[at:e.off])
			b.WriteString(e.to)
			at = e.off + e.n
		}
		b.Write(src[at:])
		out[f] = b.Bytes()
	}
	return out
}

// renameAll (debugging): every unexported name gets another one, in place.
func renameAll(fset *token.FileSet, pkgs []*packages.Package) {
	m := map[types.Object]string{}
	for _, o := range shapesOf(fset, pkgs).objs {
		if !o.Exported() && o.Name() != "_" {
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				continue
			}
			m[o] = o.Name() + "New"
		}
	}
	for f, b := range applyRename(fset, pkgs, m, nil) {
		_ = os.WriteFile(f, b, 0644)
	}
}

func loadShapes(file string) *shapes {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	s := &shapes{}
	if json.Unmarshal(b, s) != nil {
		return nil
	}
	return s
}
