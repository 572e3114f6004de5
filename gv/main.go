package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func loadSpec(dir string) (*Spec, error) {
	sp := NewSpec()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.files = append(sp.files, f)
		if err := sp.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func hasTag(ts []string, t string) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// tagged: the contract states something for the property itself.
func (c *Contract) tagged(p string) bool {
	for _, l := range [][]Clause{c.requires, c.ensures, c.panicsIf} {
		for _, x := range l {
			if hasTag(x.tags, p) {
				return true
			}
		}
	}
	return hasTag(c.panicTags, p) || hasTag(c.termTags, p)
}

type Report struct {
	Prop    string
	Results []*FuncResult
	Stats   *Stats
	Failed  []*Obl
	Fatal   []string
}

func runProperty(w *World, prop string, only string, workers int) *Report {
	rep := &Report{Prop: prop, Stats: NewStats()}
	var tags map[string]bool
	if prop != "" {
		tags = map[string]bool{prop: true}
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	var queue []string
	// a contract with a home is discharged by the checks of those properties
	elsewhere := func(n string) string {
		if cn := w.spec.contracts[n]; cn != nil && prop != "" && only == "" && cn.opts["home"] != "" && !hasTag(strings.Split(cn.opts["home"], ","), prop) {
			return cn.opts["home"]
		}
		return ""
	}
	push := func(n string) {
		if !seen[n] && elsewhere(n) == "" {
			seen[n] = true
			queue = append(queue, n)
		}
	}
	if only != "" {
		for _, n := range w.spec.order {
			if !w.spec.contracts[n].extern && (n == only || strings.HasSuffix(n, only)) {
				push(n)
			}
		}
	} else {
		for _, n := range w.spec.order {
			cn := w.spec.contracts[n]
			if !cn.extern && (prop == "" || cn.tagged(prop)) {
				push(n)
			}
		}
		for _, n := range w.spec.props[prop] {
			if w.spec.contracts[n] != nil {
				push(n)
			}
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, workers)
	busy := 0
	cond := sync.NewCond(&mu)
	done := func(r *FuncResult) {
		mu.Lock()
		rep.Results = append(rep.Results, r)
		if only == "" {
			for _, u := range sortedKeys(r.Used) {
				push(u)
				if h := elsewhere(u); h != "" {
					r.Assumes = append(r.Assumes, "contract of "+u+" relied on here; its obligations are discharged by the checks of "+h)
				}
			}
		}
		busy--
		cond.Broadcast()
		mu.Unlock()
		<-sem
		wg.Done()
	}
	if only == "" || only == "lemmas" {
		for _, l := range w.spec.lemmas {
			if prop != "" && len(l.tags) > 0 && !hasTag(l.tags, prop) {
				continue
			}
			if prop != "" && len(l.tags) == 0 {
				continue
			}
			l := l
			mu.Lock()
			busy++
			mu.Unlock()
			wg.Add(1)
			sem <- true
			go func() { done(w.verifyLemma(l, tags, rep.Stats)) }()
		}
	}
	mu.Lock()
	for {
		for len(queue) == 0 && busy > 0 {
			cond.Wait()
		}
		if len(queue) == 0 {
			break
		}
		n := queue[0]
		queue = queue[1:]
		busy++
		mu.Unlock()
		wg.Add(1)
		sem <- true
		go func() { done(w.verify(w.spec.contracts[n], tags, rep.Stats)) }()
		mu.Lock()
	}
	mu.Unlock()
	wg.Wait()
	sort.Slice(rep.Results, func(i, j int) bool { return rep.Results[i].Name < rep.Results[j].Name })
	rep.collect()
	return rep
}

func (rep *Report) collect() {
	rep.Fatal, rep.Failed = nil, nil
	for _, r := range rep.Results {
		for _, f := range r.Fatal {
			rep.Fatal = append(rep.Fatal, r.Name+": "+f)
		}
		for _, o := range r.Obls {
			if !o.OK {
				rep.Failed = append(rep.Failed, o)
			}
		}
	}
}

// retry verifies the functions with undischarged obligations once more, one
// at a time and with longer time limits: an obligation counts as failed only
// if it is still undischarged when the solvers had time and cores enough.
func (w *World) retry(rep *Report, prop string) {
	patience = 3
	defer func() { patience = 1 }()
	for i := 0; i < len(rep.Results); i++ {
		r := rep.Results[i]
		cn := w.spec.contracts[r.Name]
		bad := len(r.Fatal) > 0
		for _, o := range r.Obls {
			bad = bad || !o.OK
		}
		if !bad || cn == nil || late() {
			continue
		}
		r2 := w.verify(cn, map[string]bool{prop: true}, rep.Stats)
		if late() {
			continue
		}
		r2.Assumes = r.Assumes
		rep.Results[i] = r2
		for _, u := range sortedKeys(r2.Used) {
			have := r.Used[u]
			for _, x := range rep.Results {
				have = have || x.Name == u
			}
			if c := w.spec.contracts[u]; !have && c != nil {
				rep.Results = append(rep.Results, w.verify(c, map[string]bool{prop: true}, rep.Stats))
			}
		}
		still := len(r2.Fatal) > 0
		for _, o := range r2.Obls {
			still = still || !o.OK
		}
		if still {
			break
		}
	}
	rep.collect()
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	prop := flag.String("prop", "", "property")
	fn := flag.String("func", "", "only this function (debugging)")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "list obligations")
	check := flag.Bool("check", false, "run the property's check: proof, audit, evidence")
	list := flag.Bool("list", false, "list functions of the repository")
	names := flag.Bool("names", false, "write contracts/names.json")
	onlyH := flag.Bool("harness", false, "only replay the property's harness (debugging)")
	flag.Parse()
	t0 := time.Now()
	if s := os.Getenv("VERIF_REPO"); s != "" {
		*repo = s
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "gv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if os.Getenv("GV_KEEP") == "" {
		defer os.RemoveAll(tmpDir)
	}
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	if *onlyH {
		r := runHarness(*repo, *verif, *prop, *tier)
		fmt.Println(*prop, r.Summary, "failed:", r.Failed, r.FirstFail)
		for _, e := range r.Evidence {
			fmt.Println("  ", e)
		}
		if r.Failed {
			fmt.Println(r.Output)
		}
		return
	}
	sp, err := loadSpec(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.RemoveAll(tmpDir)
		os.Exit(3)
	}
	nf := filepath.Join(*verif, "contracts", "names.json")
	var base *shapes
	if !*names {
		base = loadShapes(nf)
	}
	w, err := LoadWorld(*repo, base)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		os.RemoveAll(tmpDir)
		if *check {
			rp := filepath.Join(*verif, "evidence", *prop+".replay.txt")
			os.WriteFile(rp, []byte("the program does not load: "+err.Error()+"\n"), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
			os.Exit(1)
		}
		os.Exit(3)
	}
	if *names {
		b, _ := json.MarshalIndent(w.shapes, "", " ")
		if err := os.WriteFile(nf, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		return
	}
	w.spec = sp
	w.dropped = w.fitContracts()
	if *list {
		ex := w.externals()
		for _, n := range sortedKeys(ex) {
			fmt.Println("EXT", n, ex[n])
		}
		for _, n := range sortedKeys(w.byName) {
			fmt.Println(n)
		}
		return
	}
	workers := runtime.NumCPU()
	if workers > 7 {
		workers = 7
	}
	if *check {
		os.Exit(runCheck(w, *repo, *verif, *prop, *tier, workers, t0))
	}
	rep := runProperty(w, *prop, *fn, workers)
	printReport(rep, *verbose)
	fmt.Printf("wall %.1fs\n", time.Since(t0).Seconds())
	if len(rep.Failed)+len(rep.Fatal) > 0 {
		if os.Getenv("GV_KEEP") == "" {
			os.RemoveAll(tmpDir)
		}
		os.Exit(1)
	}
}

func printReport(rep *Report, verbose bool) {
	for _, r := range rep.Results {
		ok := 0
		for _, o := range r.Obls {
			if o.OK {
				ok++
			}
		}
		fmt.Printf("%-60s %3d/%3d obligations, %d exits, %d loop invariants, %d instance(s), %.1fs\n", r.Name, ok, len(r.Obls), r.Exits, r.Invs, r.Instances, r.Secs)
		if verbose {
			for _, o := range r.Obls {
				fmt.Printf("    [%v %s] %s @%s %v\n", o.OK, o.By, o.Name, o.Pos, o.Tags)
			}
			fmt.Println("    inlined:", sortedKeys(r.Inlined))
			fmt.Println("    trusted:", sortedKeys(r.Trusted))
			fmt.Println("    used:", sortedKeys(r.Used))
		}
	}
	for _, f := range rep.Fatal {
		fmt.Println("FATAL", f)
	}
	for _, o := range rep.Failed {
		fmt.Printf("FAILED %s: %s @%s\n   path: %s\n   model: %v\n", o.Func, o.Name, o.Pos, strings.Join(o.Path, "; "), o.Model)
		if os.Getenv("GV_GOAL") != "" {
			g := o.Goal
			if len(g) > 3000 {
				g = g[:3000] + "…"
			}
			fmt.Println("   goal:", g)
		}
	}
	fmt.Println("solver:", rep.Stats.queries, rep.Stats.solved, rep.Stats.time)
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func runCheck(w *World, repo, verif, prop, tier string, workers int, t0 time.Time) int {
	limit := 500 * time.Second
	if tier == "thorough" {
		limit = 3000 * time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("GV_LIMIT")); err == nil {
		limit = time.Duration(n) * time.Second
	}
	deadline = t0.Add(limit)
	rep := runProperty(w, prop, "", workers)
	tProof := time.Since(t0).Seconds()
	hr := runHarness(repo, verif, prop, tier)
	if !hr.Failed && len(rep.Failed)+len(rep.Fatal) > 0 {
		deadline = time.Now().Add(limit / 2)
		if tier != "thorough" && deadline.After(t0.Add(780*time.Second)) {
			deadline = t0.Add(780 * time.Second)
		}
		w.retry(rep, prop)
		tProof = time.Since(t0).Seconds()
	}
	total, okc := 0, 0
	by := map[string]int{}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	axs := map[string]bool{}
	var funcs, assumptions []string
	exits, invs := 0, 0
	var names []string
	for _, r := range rep.Results {
		funcs = append(funcs, fmt.Sprintf("%s (%d obligations, %d paths to an exit, %d loop invariants inferred and checked, %.1fs)", r.Name, len(r.Obls), r.Exits, r.Invs, r.Secs))
		exits += r.Exits
		invs += r.Invs
		for k := range r.Trusted {
			trusted[k] = true
		}
		for k := range r.Inlined {
			inl[k] = true
		}
		for k := range r.Axioms {
			axs[k] = true
		}
		assumptions = append(assumptions, r.Assumes...)
		for _, o := range r.Obls {
			total++
			if o.OK {
				okc++
				by[o.By]++
			}
			n := o.Func + ": " + o.Name
			if !hasTag(names, n) {
				names = append(names, n)
			}
		}
	}
	var tb []string
	for _, k := range sortedKeys(trusted) {
		if strings.HasPrefix(k, "unmodelled: ") {
			tb = append(tb, k[12:]+" (unmodelled: any result, argument memory arbitrary, assumed to return)")
		} else {
			tb = append(tb, k+" (assumed behaviour, see contracts/ and gv/models*.go)")
		}
	}
	for _, k := range sortedKeys(axs) {
		assumptions = append(assumptions, "axiom: "+k)
	}
	assumptions = append(assumptions, generalAssumptions...)
	for _, d := range w.renamed {
		assumptions = append(assumptions, "renamed: "+d)
	}
	for _, d := range w.dropped {
		assumptions = append(assumptions, "contract of "+d+" dropped: no such function in this source; what took its place is checked inside its callers")
	}
	st := map[string]any{}
	for k := range rep.Stats.queries {
		st[k] = map[string]any{"queries": rep.Stats.queries[k], "unsat": rep.Stats.solved[k], "seconds": round2(rep.Stats.time[k])}
	}
	nviol := 0
	if len(rep.Failed)+len(rep.Fatal) > 0 || hr.Failed {
		nviol = 1
	}
	cov := map[string]any{
		"obligations": total, "discharged": okc,
		"checker_cmd":                      "/verif/check.sh " + prop + " " + tier,
		"trusted_base":                     append(tb, "gv (the verifier in /verif/gv), golang.org/x/tools/go/ssa as front end, z3 5.x, z3 4.8.12, cvc5 1.1.2"),
		"functions_under_contract":         funcs,
		"functions_checked_inside_callers": sortedKeys(inl),
		"distinct_obligations":             names,
		"discharged_by":                    by,
		"solver":                           st,
		"paths_to_exit":                    exits,
		"loop_invariants":                  invs,
		"source_files":                     len(w.srcFiles),
		"proof_seconds":                    round2(tProof),
		"audit":                            hr.Evidence,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": round2(time.Since(t0).Seconds()), "violations": nviol}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions under contract, audit: %s (%.1fs)\n", prop, total, okc, len(rep.Results), hr.Summary, time.Since(t0).Seconds())
	for _, l := range knownFindings(verif, prop) {
		fmt.Println(l)
	}
	if len(rep.Results) == 0 {
		rep.Fatal = append(rep.Fatal, "no contract is registered for this property")
		nviol = 1
	}
	if nviol == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", prop+".replay.txt")
	var o strings.Builder
	fmt.Fprintf(&o, "property %s\n\n", prop)
	for _, f := range rep.Fatal {
		fmt.Fprintf(&o, "undischarged (verifier could not process): %s\n", f)
		fmt.Println("undischarged:", f)
	}
	for _, f := range rep.Failed {
		fmt.Fprintf(&o, "failed obligation: %s: %s (%s)\n  path: %s\n  counterexample values: %v\n  goal: %.2000s\n", f.Func, f.Name, f.Pos, strings.Join(f.Path, "; "), f.Model, f.Goal)
		fmt.Printf("failed obligation: %s: %s (%s)\n", f.Func, f.Name, f.Pos)
	}
	if hr.Failed {
		fmt.Fprintf(&o, "\nconcrete failing input, replayed against the real code:\n%s\n\nreplay command:\n%s\n", hr.Output, hr.Command)
		fmt.Println(hr.FirstFail)
	} else {
		fmt.Fprintf(&o, "\nno concrete failing input found (%s)\n", hr.Summary)
	}
	os.WriteFile(rp, []byte(o.String()), 0644)
	if hr.Failed {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

var generalAssumptions = []string{
	"integers are exact: Go's wrap-around is modelled; no machine arithmetic is treated as mathematical",
	"no object exceeds 2^48 bytes and allocation succeeds",
	"no unsafe code, cgo or assembly in the functions under contract",
	"cryptographic primitives are ideal only in the stated functional sense (open inverts seal, lengths); their security is not proved",
	"Go memory model: data guarded by a mutex is only changed by holders of the mutex",
}

func knownFindings(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

// externals lists the functions outside the repository that it calls.
func (w *World) externals() map[string][]string {
	out := map[string][]string{}
	for n, f := range w.byName {
		if strings.Contains(n, "akes") || strings.Contains(n, "FakePass") || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(interface{ Common() *ssa.CallCommon })
				if !ok {
					continue
				}
				cc := c.Common()
				var k string
				if cc.IsInvoke() {
					k = "I " + tkey(cc.Value.Type()) + "." + cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						continue
					}
					k = fname(g)
				} else if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				} else {
					k = "dyncall:" + tkey(cc.Value.Type())
				}
				out[k] = append(out[k], n)
			}
		}
	}
	return out
}
