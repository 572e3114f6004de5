package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/flawedmatrix/gocryptsftp"

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// World: the loaded program plus the contracts.
type World struct {
	repo     string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*ssa.Package
	byName   map[string]*ssa.Function
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	gids     map[*ssa.Global]int
	mu       sync.Mutex
	embTypes map[string]bool
	spec     *Spec
	allPkgs  map[string]*types.Package
	srcFiles []string
	assumed  map[string]string // external function -> how it is modelled
	tags     map[string]string
	stable   map[*ssa.Global]bool
	deep     map[*ssa.Global]bool
	ghostMu  sync.Mutex
	ghostSet map[*ssa.Function]map[string]bool
	paths    []string
	dropped  []string
	renamed  []string // names that differ from those the contracts use
	shapes   *shapes
	base     *shapes
}

type boxInfo struct {
	unbox string
	n     int
}

func LoadWorld(repo string, base *shapes) (*World, error) {
	w := &World{repo: repo, byName: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, gids: map[*ssa.Global]int{}, embTypes: map[string]bool{}, allPkgs: map[string]*types.Package{}, assumed: map[string]string{}}
	w.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:  repo, Fset: w.fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if n := packages.PrintErrors(pkgs); n > 0 {
		return nil, fmt.Errorf("%d package errors", n)
	}
	w.shapes = shapesOf(w.fset, pkgs).sh
	if os.Getenv("GV_RENAME") == repo && repo != "/repo" {
		renameAll(w.fset, pkgs)
	}
	w.base = base
	for i := 0; base != nil && i < 12; i++ {
		text, notes := rename(w.fset, pkgs, base, cfg.Overlay)
		if text == nil {
			break
		}
		c2 := *cfg
		c2.Fset, c2.Overlay = token.NewFileSet(), text
		p2, err := packages.Load(&c2, "./...")
		bad := err != nil
		for _, p := range p2 {
			bad = bad || len(p.Errors) > 0
		}
		if bad {
			break // taken as it is
		}
		cfg, pkgs, w.fset = &c2, p2, c2.Fset
		w.renamed = append(w.renamed, notes...)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range sp {
		if p == nil {
			continue
		}
		w.pkgs = append(w.pkgs, p)
		for _, f := range pkgs[i].CompiledGoFiles {
			w.srcFiles = append(w.srcFiles, f)
		}
	}
	seen := map[*types.Package]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		w.allPkgs[p.Path()] = p
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	for _, p := range w.pkgs {
		walk(p.Pkg)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || fn.Synthetic != "" && len(fn.Blocks) == 0 {
			continue
		}
		if _, ok := w.byName[fname(fn)]; !ok || fn.Synthetic == "" {
			w.byName[fname(fn)] = fn
		}
	}
	for _, p := range w.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
							w.embTypes[tkey(s.Field(i).Type())] = true
						}
					}
				}
			}
		}
	}
	sort.Strings(w.srcFiles)
	// stable global ids
	var gs []*ssa.Global
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		w.globalID(g)
	}
	return w, nil
}

func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/gocrypt/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "main")
	return s
}
func fname(fn *ssa.Function) string { return short(fn.String()) }

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	f, err := filepath.Rel(w.repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) loopAt(b *ssa.BasicBlock) *loopInfo {
	fn := b.Parent()
	w.mu.Lock()
	defer w.mu.Unlock()
	m, ok := w.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		for _, h := range fn.Blocks {
			for _, p := range h.Preds {
				if h.Dominates(p) {
					l := m[h]
					if l == nil {
						l = &loopInfo{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
						m[h] = l
					}
					work := []*ssa.BasicBlock{p}
					for len(work) > 0 {
						x := work[len(work)-1]
						work = work[:len(work)-1]
						if l.blocks[x] {
							continue
						}
						l.blocks[x] = true
						work = append(work, x.Preds...)
					}
				}
			}
		}
		w.loops[fn] = m
	}
	return m[b]
}

func (w *World) globalID(g *ssa.Global) int {
	if id, ok := w.gids[g]; ok {
		return id
	}
	id := 100 + len(w.gids)
	w.gids[g] = id
	return id
}
func (w *Exec) typeID(k string, t types.Type) int {
	if id, ok := w.tids[k]; ok {
		if t != nil && w.tlist[id-1] == nil {
			w.tlist[id-1] = t
		}
		return id
	}
	w.tlist = append(w.tlist, t)
	id := len(w.tlist)
	w.tids[k] = id
	return id
}
func (w *Exec) typeByID(id int) types.Type {
	if id >= 1 && id <= len(w.tlist) {
		return w.tlist[id-1]
	}
	return nil
}
func (w *Exec) addBox(b, u string, n int) { w.boxes[b] = boxInfo{u, n} }

// findType resolves names such as "contentenc.ContentEnc" or "*bytes.Buffer".
func (w *World) findType(n string) types.Type {
	n = strings.TrimSpace(n)
	switch n {
	case "int":
		return intT
	case "bool":
		return boolT
	case "string":
		return stringT
	case "byte", "uint8":
		return byteT
	case "uint64":
		return types.Typ[types.Uint64]
	case "uint16":
		return types.Typ[types.Uint16]
	case "int64":
		return types.Typ[types.Int64]
	case "error":
		return errorT
	case "any", "interface{}":
		return types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(n, "*") {
		if t := w.findType(n[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(n, "[]") {
		if t := w.findType(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(n, "map[") {
		d := 0
		for i := 3; i < len(n); i++ {
			if n[i] == '[' {
				d++
			} else if n[i] == ']' {
				d--
				if d == 0 {
					k, v := w.findType(n[4:i]), w.findType(n[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	}
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return nil
	}
	pn, tn := n[:i], n[i+1:]
	for pass := 0; pass < 3; pass++ {
		for _, path := range w.pkgPaths() {
			p := w.allPkgs[path]
			if (pass == 0 && path == pn) || (pass == 1 && short(path) == pn) || (pass == 2 && p.Name() == pn && !strings.Contains(pn, "/")) {
				if t, ok := p.Scope().Lookup(tn).(*types.TypeName); ok {
					return t.Type()
				}
			}
		}
	}
	return nil
}

// globalNamed finds a package-level variable "pkg.name".
func (w *World) globalNamed(n string) *ssa.Global {
	for g := range w.gids {
		if short(g.String()) == n {
			return g
		}
	}
	return nil
}

func (w *World) pkgPaths() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.paths == nil {
		for p := range w.allPkgs {
			w.paths = append(w.paths, p)
		}
		sort.Strings(w.paths)
	}
	return w.paths
}

// fitContracts drops contracts of unexported functions that the source no
// longer has (or has with other parameters): such a helper is then checked
// inside its callers. Contracts of exported functions must fit.
func (w *World) fitContracts() (dropped []string) {
	var order []string
	for _, n := range w.spec.order {
		cn := w.spec.contracts[n]
		if cn.extern {
			order = append(order, n)
			continue
		}
		fn := w.byName[n]
		base := n[strings.LastIndexByte(n, '.')+1:]
		if j := strings.IndexByte(base, '$'); j >= 0 {
			base = base[:j]
		}
		exported := token.IsExported(base)
		bad := fn == nil || len(fn.Blocks) == 0 || len(cn.params) > 0 && len(cn.params) != len(paramTypes(fn.Signature)) || len(cn.results) > fn.Signature.Results().Len()
		if w.base != nil && !exported && !bad {
			if b, ok := w.base.Funcs[n]; ok {
				if ps := reordered(cn.params, b.Params, parNames(fn.Signature)); strings.Join(ps, " ") != strings.Join(cn.params, " ") {
					cn.params = ps
				} else {
					bad = b.Sig != sigStr(fn.Signature)
				}
			}
		}
		if bad && !exported && cn.opts["required"] == "" {
			delete(w.spec.contracts, n)
			dropped = append(dropped, n)
			continue
		}
		order = append(order, n)
	}
	w.spec.order = order
	return
}
