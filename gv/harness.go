package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type harnessUnit struct {
	Dir   string   `json:"dir"`   // package directory in the repository
	Files []string `json:"files"` // files under /verif/harness, overlaid as <name>_verif_test.go
	Run   string   `json:"run"`
	Race  bool     `json:"race"`
	Bin   bool     `json:"bin"` // needs the built program
	Tags  string   `json:"tags"`
}

type harnessResult struct {
	Failed    bool
	Ran       int
	Summary   string
	FirstFail string
	Output    string
	Command   string
	Evidence  []any
}

// runHarness replays the property on the real code with concrete inputs: it
// audits the assumed contracts and turns a failed proof into a failing input.
func runHarness(repo, verif, prop, tier string) *harnessResult {
	r := &harnessResult{Summary: "none"}
	b, err := os.ReadFile(filepath.Join(verif, "harness", "index.json"))
	if err != nil {
		return r
	}
	var idx map[string][]harnessUnit
	if err := json.Unmarshal(b, &idx); err != nil {
		r.Summary = "bad index: " + err.Error()
		return r
	}
	us := idx[prop]
	if len(us) == 0 {
		return r
	}
	type out struct {
		s, cmd string
		ok     bool
		built  bool
		secs   float64
	}
	outs := make([]out, len(us))
	var wg sync.WaitGroup
	for i, u := range us {
		wg.Add(1)
		go func(i int, u harnessUnit) {
			defer wg.Done()
			rep := map[string]string{}
			for _, f := range u.Files {
				base := strings.TrimSuffix(filepath.Base(f), ".go")
				if !strings.HasPrefix(u.Dir, "zzverif") {
					base = "zz_" + base // inside a package of the repository
				}
				rep[filepath.Join(repo, u.Dir, base+"_verif_test.go")] = filepath.Join(verif, "harness", f)
			}
			ov := filepath.Join(tmpDir, fmt.Sprintf("overlay%d.json", i))
			jb, _ := json.Marshal(map[string]any{"Replace": rep})
			os.WriteFile(ov, jb, 0644)
			scratch := filepath.Join(tmpDir, fmt.Sprintf("scratch%d", i))
			os.MkdirAll(filepath.Join(scratch, "tmp"), 0755)
			to := 150
			if tier == "thorough" {
				to = 600
			}
			bin := filepath.Join(tmpDir, fmt.Sprintf("harness%d", i))
			bargs := []string{"test", "-c", "-overlay", ov, "-vet=off", "-o", bin}
			if u.Race {
				bargs = append(bargs, "-race")
			}
			bargs = append(bargs, "./"+u.Dir)
			env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "VERIF_SCRATCH="+scratch, "VERIF_REPO="+repo, fmt.Sprintf("VERIF_SEED=%d", seed()), "VERIF_TIER="+tier, "GOTRACEBACK=single")
			if u.Race {
				env = append(env, "CGO_ENABLED=1")
			}
			t0 := time.Now()
			bc := exec.Command("go", bargs...)
			bc.Dir = repo
			bc.Env = env
			if bo, err := bc.CombinedOutput(); err != nil {
				outs[i] = out{string(bo), "", false, false, time.Since(t0).Seconds()}
				return
			}
			if u.Bin {
				px := filepath.Join(tmpDir, fmt.Sprintf("proxy%d", i))
				bc := exec.Command("go", "build", "-o", px, ".")
				bc.Dir = repo
				bc.Env = env
				if bo, err := bc.CombinedOutput(); err != nil {
					outs[i] = out{string(bo), "", false, false, time.Since(t0).Seconds()}
					return
				}
				env = append(env, "VERIF_PROXY="+px)
			}
			args := []string{"-test.run", "^(" + u.Run + ")$", "-test.v", "-test.count=1", fmt.Sprintf("-test.timeout=%ds", to)}
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(to+20)*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, bin, args...)
			cmd.Dir = scratch
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
			cmd.WaitDelay = 5 * time.Second
			cmd.Env = append(env, "TMPDIR="+filepath.Join(scratch, "tmp"), "HOME="+scratch)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			err := cmd.Run()
			s := buf.String()
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			outs[i] = out{s, "cd " + repo + " && go " + strings.Join(bargs, " ") + " && (cd SCRATCH; VERIF_SEED=" + fmt.Sprint(seed()) + " VERIF_TIER=" + tier + " " + bin + " " + strings.Join(args, " ") + ")   (overlay: " + string(jb) + ")", err == nil, strings.Contains(s, "=== RUN"), time.Since(t0).Seconds()}
		}(i, u)
	}
	wg.Wait()
	nb := 0
	for i, o := range outs {
		ev := map[string]any{"package": us[i].Dir, "tests": us[i].Run, "race_detector": us[i].Race, "seconds": round2(o.secs)}
		if !o.built {
			nb++
			ev["result"] = "not runnable on this source (harness does not compile against it); no verdict from it"
			ev["output"] = tail(o.s, 1500)
			r.Evidence = append(r.Evidence, ev)
			continue
		}
		r.Ran++
		var sums []string
		for _, l := range strings.Split(o.s, "\n") {
			if j := strings.Index(l, "AUDIT "); j >= 0 {
				sums = append(sums, l[j+6:])
			}
		}
		ev["cases"] = sums
		if !o.ok {
			ev["result"] = "FAIL"
			r.Failed = true
			r.Output += tail(o.s, 6000) + "\n"
			r.Command += o.cmd + "\n"
			for _, l := range strings.Split(o.s, "\n") {
				if strings.Contains(l, "VERIF-FAIL") || strings.Contains(l, "panic:") || strings.Contains(l, "DATA RACE") {
					r.FirstFail = strings.TrimSpace(l)
					break
				}
			}
		} else {
			ev["result"] = "pass"
		}
		r.Evidence = append(r.Evidence, ev)
	}
	r.Summary = fmt.Sprintf("%d harness(es) run, %d not runnable", r.Ran, nb)
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}
