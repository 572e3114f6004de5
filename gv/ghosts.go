package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ghostsSetBy: the history variables that running fn may update: those recorded
// at calls of functions under contract in everything fn can reach, and at the
// channel and condition-variable operations there.
func (w *World) ghostsSetBy(fn *ssa.Function) map[string]bool {
	w.ghostMu.Lock()
	defer w.ghostMu.Unlock()
	if w.ghostSet == nil {
		w.ghostSet = map[*ssa.Function]map[string]bool{}
	}
	if m := w.ghostSet[fn]; m != nil {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	add := func(name string) {
		if cn := w.spec.contracts[name]; cn != nil {
			for _, g := range cn.ghostSets {
				out[g.n.a[0].s] = true
			}
			for _, g := range cn.atRelease {
				out[g.n.a[0].s] = true
			}
		}
	}
	chans := func() {
		out["k_ticket"], out["k_cur"] = true, true
		for k, l := range w.spec.messages {
			if strings.HasPrefix(k, "sendset:") || strings.HasPrefix(k, "recvset:") {
				for _, m := range l {
					out[m.n.a[0].s] = true
				}
			}
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil && f.Parent() == nil && f.Origin() == nil && f.Synthetic == "" {
			return
		}
		seen[f] = true
		if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						chans()
					}
				case *ssa.Send:
					chans()
				case *ssa.Select:
					chans()
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						add(tkey(cc.Value.Type()) + "." + cc.Method.Name())
						continue
					}
					if g := cc.StaticCallee(); g != nil {
						if strings.HasSuffix(fname(g), ".Broadcast") || strings.HasSuffix(fname(g), ".Signal") {
							out["k_bcsets"] = true
						}
						if fname(g) == "encoding/json.Unmarshal" && decodesConfig(cc) {
							out["k_cdata"] = true
						}
						add(fname(g))
						visit(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if x, ok := in.(ssa.CallInstruction); ok && x.Common().StaticCallee() == g {
							continue
						}
						if fname(g) == "encoding/json.Unmarshal" {
							out["k_cdata"] = true
						}
						add(fname(g))
						visit(g)
					}
				}
			}
		}
	}
	// fn itself: its own sets are recorded by its caller
	visit(fn)
	w.ghostSet[fn] = out
	return out
}

// decodesConfig: the call of json.Unmarshal may decode the program's config.
func decodesConfig(cc *ssa.CallCommon) bool {
	m, ok := cc.Args[1].(*ssa.MakeInterface)
	if !ok {
		return true
	}
	p, ok := m.X.Type().Underlying().(*types.Pointer)
	return !ok || tkey(p.Elem()) == "config.Config"
}
