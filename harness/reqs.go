package zz

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/requester"
)

// zzBack is a backend and decrypter whose answers name the call they belong to.
type zzBack struct {
	mu    sync.Mutex
	calls map[string]int // started
	done  map[string]int // finished
	hook  func(kind, key string, n int) (fail error, withData bool, empty bool)
}

func zzNewBack() *zzBack { return &zzBack{calls: map[string]int{}, done: map[string]int{}} }

type zzFI struct {
	*zzInfo
	nm string
}

func (f zzFI) Name() string { return f.nm }

func (b *zzBack) call(kind, key string) (string, error, bool, bool) {
	k := kind + "|" + key
	b.mu.Lock()
	b.calls[k]++
	n := b.calls[k]
	h := b.hook
	b.mu.Unlock()
	var fail error
	var wd, em bool
	if h != nil {
		fail, wd, em = h(kind, key, n)
	}
	b.mu.Lock()
	b.done[k]++
	b.mu.Unlock()
	return k, fail, wd, em
}
func (b *zzBack) started(k string) int { b.mu.Lock(); defer b.mu.Unlock(); return b.calls[k] }
func (b *zzBack) finished(k string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.done[k]
}

func (b *zzBack) ReadFile(p string) ([]byte, error) {
	k, err, wd, em := b.call("file", p)
	if err != nil && !wd {
		return nil, err
	}
	if em {
		return []byte{}, err
	}
	return []byte(k), err
}
func (b *zzBack) ReadDir(p string) ([]os.FileInfo, error) {
	k, err, wd, em := b.call("dir", p)
	if err != nil && !wd {
		return nil, err
	}
	if em {
		return []os.FileInfo{}, err
	}
	return []os.FileInfo{zzFI{nm: k}}, err
}
func zzNK(name string, iv []byte) string {
	return fmt.Sprintf("%d:%s:%s", len(name), name, hex.EncodeToString(iv))
}
func (b *zzBack) DecryptName(name string, iv []byte) (string, error) {
	k, err, wd, em := b.call("name", zzNK(name, iv))
	if err != nil && !wd {
		return "", err
	}
	if em {
		return "", err
	}
	return k, err
}

type zzReq struct {
	kind, arg string
	iv        []byte
}

func (q zzReq) key() string {
	if q.kind == "name" {
		return "name|" + zzNK(q.arg, q.iv)
	}
	return q.kind + "|" + q.arg
}
func (q zzReq) String() string {
	if q.kind == "name" {
		return fmt.Sprintf("DecryptName(%q, %x)", q.arg, q.iv)
	}
	return fmt.Sprintf("%s(%q)", map[string]string{"file": "ReadFile", "dir": "ReadDir"}[q.kind], q.arg)
}

// do performs a request; data is the identity the answer carries.
func (q zzReq) do(r *requester.Requester) (data string, empty bool, err error) {
	switch q.kind {
	case "file":
		b, e := r.ReadFile(q.arg)
		return string(b), len(b) == 0, e
	case "dir":
		l, e := r.ReadDir(q.arg)
		if len(l) == 0 {
			return "", true, e
		}
		return l[0].Name(), false, e
	}
	s, e := r.DecryptName(q.arg, append([]byte{}, q.iv...))
	return s, s == "", e
}

func zzReqs(seed int64) []zzReq {
	r := zzRand(seed)
	var qs []zzReq
	paths := []string{"", "/", "a", "/a", "/a/b", "/a/b/", "a+00", "a+", "+", "/enc/gocryptfs.diriv", "/enc/x", strings.Repeat("x", 300), strings.Repeat("x", 301)}
	for _, n := range []int{100, 255, 512, 1000, 4000, 70000} {
		l := strings.Repeat("deep/", n/5)
		paths = append(paths, "/1"+l, "/2"+l, "/"+l+"1", "/"+l+"2", "/"+l+"3"+l, "/"+l+"4"+l)
	}
	for _, p := range paths {
		qs = append(qs, zzReq{kind: "file", arg: p}, zzReq{kind: "dir", arg: p})
	}
	iv0 := zzBytes(r, 16)
	names := []string{"", "a", "/a", "a+00", "/enc/x", "a+" + hex.EncodeToString(iv0), "nm", "n", "m"}
	add := func(n string, iv []byte) { qs = append(qs, zzReq{"name", n, append([]byte{}, iv...)}) }
	for _, n := range names {
		add(n, iv0)
		add(n, nil)
		add(n, []byte{0})
		add(n, make([]byte, 16))
	}
	for i := 0; i < 16; i++ {
		iv := append([]byte{}, iv0...)
		iv[i] ^= 1 << uint(r.Intn(8))
		add("a", iv)
		z := make([]byte, 16)
		z[i] = 0x61
		add("a", z)
		add("a", iv0[:i])
	}
	for _, x := range []uint64{0x13f8b2f13eaab074, 0x1adf76339a5dc0f7} {
		iv := make([]byte, 16)
		for i := 0; i < 8; i++ {
			iv[i] = byte(x >> (8 * uint(i)))
		}
		iv[8] = 1
		add("a", iv)
	}
	// same digits, split differently between name and IV
	add("x+61", []byte{0x62})
	add("x", []byte{0x61, 0x2b, 0x62})
	add("x", []byte{0x61, 0x62})
	add("xa", []byte("b"))
	add("x", []byte("ab"))
	for i := 0; i < zzN(60); i++ {
		switch r.Intn(3) {
		case 0:
			qs = append(qs, zzReq{kind: "file", arg: fmt.Sprintf("/p%d", r.Intn(40))})
		case 1:
			qs = append(qs, zzReq{kind: "dir", arg: fmt.Sprintf("/p%d", r.Intn(40))})
		default:
			add(fmt.Sprintf("/p%d", r.Intn(40)), zzBytes(r, 1+r.Intn(16)))
		}
	}
	return qs
}

func TestVerifC14(t *testing.T) {
	b := zzNewBack()
	r := requester.New(3, b, b)
	r.Start()
	defer r.Stop()
	qs := zzReqs(14)
	check := func(q zzReq, when string) string {
		d, _, err := q.do(r)
		if err != nil {
			return fmt.Sprintf("%s: %v fails though its backend call succeeds: %v", when, q, err)
		}
		if d != q.key() {
			return fmt.Sprintf("%s: %v was answered with the answer to another request: %q", when, q, d)
		}
		return ""
	}
	for round := 0; round < 2; round++ {
		for _, q := range qs {
			if m := check(q, fmt.Sprintf("in sequence, round %d", round)); m != "" {
				zzFail(t, "%s", m)
			}
		}
	}
	for _, q := range qs {
		if n := b.started(q.key()); n < 1 {
			zzFail(t, "%v was never asked of the backend", q)
		}
	}
	// the answer is the backend's own even if the caller reuses its IV buffer
	iv := []byte{1, 2, 3, 4}
	if s, err := r.DecryptName("reuse", iv); err != nil || s != "name|"+zzNK("reuse", []byte{1, 2, 3, 4}) {
		zzFail(t, "DecryptName(reuse): %q %v", s, err)
	}
	iv[0] = 9
	if s, err := r.DecryptName("reuse", iv); err != nil || s != "name|"+zzNK("reuse", iv) {
		zzFail(t, "DecryptName after the IV buffer was changed: %q %v", s, err)
	}
	// concurrently, with the cache being cleared
	for part := 0; part < 2; part++ {
		var wg sync.WaitGroup
		stop := make(chan bool)
		if part == 1 {
			go func() {
				for {
					select {
					case <-stop:
						return
					default:
						r.ClearCache()
						time.Sleep(200 * time.Microsecond)
					}
				}
			}()
		} else {
			r.ClearCache()
		}
		bad := make(chan string, 64)
		for g := 0; g < 8; g++ {
			rr := zzRand(int64(1400 + 10*part + g))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < zzN(300); i++ {
					q := qs[rr.Intn(len(qs))]
					d, _, err := q.do(r)
					if err != nil && part == 1 {
						continue // the cache was wiped under the request each time
					}
					if err != nil || d != q.key() {
						select {
						case bad <- fmt.Sprintf("concurrently (part %d): %v answered %q, %v", part, q, d, err):
						default:
						}
						return
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		select {
		case m := <-bad:
			zzFail(t, "%s", m)
		default:
		}
	}
	zzAudit(t, "distinct requests %d", len(qs))
}

type zzErr struct {
	k string
	n int
}

func (e *zzErr) Error() string { return fmt.Sprintf("call %d of %s failed", e.n, e.k) }

func TestVerifC15(t *testing.T) {
	const (
		ok = iota
		fail
		failData
		empty
	)
	nm := []string{"success", "failure", "failure with data", "empty success"}
	stock := []error{os.ErrNotExist, &os.PathError{Op: "open", Path: "x", Err: os.ErrPermission}, io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, os.ErrExist, errors.New("")}
	kinds := []zzReq{{kind: "file", arg: "/k"}, {kind: "dir", arg: "/k"}, {"name", "k", []byte{1, 2}}}
	n := 0
	// all sequences of outcomes up to length 4, each played to a fresh requester
	var seqs [][]int
	for l := 1; l <= 4; l++ {
		t := 1
		for i := 0; i < l; i++ {
			t *= 4
		}
		for x := 0; x < t; x++ {
			var s []int
			for i, y := 0, x; i < l; i++ {
				s = append(s, y%4)
				y /= 4
			}
			seqs = append(seqs, s)
		}
	}
	for _, workers := range []int{1, 3} {
		for _, q := range kinds {
			b := zzNewBack()
			var script []int
			seqNo := 0
			b.hook = func(kind, key string, n int) (error, bool, bool) {
				o := script[n-1]
				e := error(nil)
				if o == fail || o == failData {
					e = &zzErr{key, n}
					if pick := n + len(script); pick%2 == 0 {
						e = stock[(pick/2+seqNo)%len(stock)]
					}
				}
				return e, o == failData, o == empty
			}
			r := requester.New(workers, b, b)
			r.Start()
			for _, sq := range seqs {
				script = append(append([]int{}, sq...), ok)
				b.mu.Lock()
				b.calls, b.done = map[string]int{}, map[string]int{}
				b.mu.Unlock()
				r.ClearCache()
				n++
				seqNo++
				cached := -1
				for step := 0; step < len(sq)+2; step++ {
					before := b.started(q.key())
					d, em, err := q.do(r)
					made := b.started(q.key()) - before
					if cached >= 0 {
						// a success may be served from cache or asked again
						if made == 0 {
							if err != nil || em != (cached == empty) || (!em && d != q.key()) {
								zzFail(t, "%v with outcomes %v: request %d is answered from cache by (%q, %v) after %s", q, sq, step, d, err, nm[cached])
							}
							continue
						}
					}
					if made == 0 {
						zzFail(t, "%v with outcomes %v, %d workers: request %d did not ask the backend, though the last outcome was a failure; it returned (%q, %v)", q, sq, workers, step, d, err)
					}
					o := script[b.started(q.key())-1]
					switch o {
					case ok:
						if err != nil || d != q.key() {
							zzFail(t, "%v with outcomes %v: request %d got a successful backend call but returned (%q, %v)", q, sq, step, d, err)
						}
					case empty:
						if err != nil || !em {
							zzFail(t, "%v with outcomes %v: request %d got an empty success from the backend but returned (%q, %v)", q, sq, step, d, err)
						}
					default:
						if err == nil || !em {
							zzFail(t, "%v with outcomes %v: request %d got %s from the backend but returned (%q, %v)", q, sq, step, nm[o], d, err)
						}
						if ze := (*zzErr)(nil); errors.As(err, &ze) && ze.n != b.started(q.key()) {
							zzFail(t, "%v with outcomes %v: request %d returned the old failure %v", q, sq, step, err)
						}
					}
					cached = -1
					if o == ok || o == empty {
						cached = o
					}
					if b.started(q.key()) == len(script) {
						break
					}
				}
			}
			r.Stop()
		}
	}
	// concurrently: an error that some request already returned must not reach
	// a request that starts later
	var rmu sync.Mutex
	returned := map[*zzErr]bool{}
	b := zzNewBack()
	var mu sync.Mutex
	rr := zzRand(15)
	b.hook = func(kind, key string, n int) (error, bool, bool) {
		mu.Lock()
		x := rr.Intn(4)
		d := time.Duration(rr.Intn(300)) * time.Microsecond
		mu.Unlock()
		time.Sleep(d)
		if x != 0 || n < 4 {
			return &zzErr{kind + "|" + key, n}, x == 1, false
		}
		return nil, false, false
	}
	r := requester.New(4, b, b)
	r.Start()
	defer r.Stop()
	bad := make(chan string, 64)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		gr := zzRand(int64(1500 + g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zzN(120); i++ {
				q := zzReq{kind: []string{"file", "dir", "name"}[gr.Intn(3)], arg: fmt.Sprint("/c", i/4), iv: []byte{7}}
				rmu.Lock()
				old := map[*zzErr]bool{}
				for e := range returned {
					if e.k == q.key() {
						old[e] = true
					}
				}
				rmu.Unlock()
				d, _, err := q.do(r)
				m := ""
				if err == nil && d != q.key() {
					m = fmt.Sprintf("%v succeeded with %q", q, d)
				}
				if err != nil && d != "" {
					m = fmt.Sprintf("%v returned data %q with the failure %v", q, d, err)
				}
				if ze := (*zzErr)(nil); errors.As(err, &ze) {
					if ze.k != q.key() || old[ze] {
						m = fmt.Sprintf("%v returned a failure that had been returned before the request was made: %v", q, err)
					}
					rmu.Lock()
					returned[ze] = true
					rmu.Unlock()
				}
				if m != "" {
					select {
					case bad <- m:
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case m := <-bad:
		zzFail(t, "%s", m)
	default:
	}
	zzAudit(t, "outcome sequences %d", n)
}

func TestVerifC16(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(64))
	alive := func(t *testing.T, r *requester.Requester, b *zzBack, n int, tag, after string) {
		t.Helper()
		for i := 0; i < n; i++ {
			for _, k := range []string{"file", "dir", "name"} {
				q := zzReq{kind: k, arg: fmt.Sprintf("/alive-%s-%d", tag, i)}
				var d string
				var err error
				if !zzWithin(15*time.Second, func() { d, _, err = q.do(r) }) || err != nil || d != q.key() {
					zzFail(t, "%s: request %d (%v) does not complete any more: %q %v", after, i, q, d, err)
				}
			}
		}
	}
	t.Run("waiters", func(t *testing.T) {
		t.Parallel()
		for _, workers := range []int{1, 2, 5} {
			for _, failing := range []bool{false, true} {
				b := zzNewBack()
				r := requester.New(workers, b, b)
				r.Start()
				gate := make(chan bool)
				b.hook = func(kind, key string, n int) (error, bool, bool) {
					if strings.Contains(key, "gate") {
						<-gate
						if failing && n == 1 {
							return errors.New("zz"), false, false
						}
					}
					return nil, false, false
				}
				for _, k := range []string{"file", "dir", "name"} {
					gate = make(chan bool)
					q := zzReq{kind: k, arg: "/gate"}
					const W = 12
					res := make(chan string, W)
					for i := 0; i < W; i++ {
						go func() {
							d, _, err := q.do(r)
							if err == nil && d != q.key() {
								res <- fmt.Sprintf("wrong answer %q", d)
							} else {
								res <- ""
							}
						}()
					}
					time.Sleep(30 * time.Millisecond)
					close(gate)
					for i := 0; i < W; i++ {
						select {
						case m := <-res:
							if m != "" {
								zzFail(t, "%v: %s", q, m)
							}
						case <-time.After(15 * time.Second):
							zzFail(t, "%d concurrent requests %v with %d workers (first call fails: %v): only %d came back after the backend answered", W, q, workers, failing, i)
						}
					}
				}
				alive(t, r, b, 2*workers, "w", "after concurrent requests for the same thing")
				r.Stop()
			}
		}
	})
	t.Run("storm", func(t *testing.T) {
		t.Parallel()
		b := zzNewBack()
		r := requester.New(3, b, b)
		r.Start()
		b.hook = func(kind, key string, n int) (error, bool, bool) {
			if n%3 == 0 {
				return errors.New("zz"), true, false
			}
			return nil, false, n%5 == 0
		}
		done := make(chan bool)
		go func() {
			defer close(done)
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				gr := zzRand(int64(1600 + g))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < zzN(150); i++ {
						zzReq{kind: []string{"file", "dir", "name"}[gr.Intn(3)], arg: fmt.Sprint("/s", gr.Intn(6))}.do(r)
						if gr.Intn(10) == 0 {
							r.ClearCache()
						}
					}
				}()
			}
			wg.Wait()
		}()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			zzFail(t, "a storm of mixed requests, failures and cache clears does not finish")
		}
		b.mu.Lock()
		b.hook = nil
		b.mu.Unlock()
		alive(t, r, b, 6, "s", "after a storm of mixed requests, failures and cache clears")
		r.Stop()
	})
	t.Run("wakeups", func(t *testing.T) {
		t.Parallel()
		// tickets locked before the worker takes its own lock: real waits
		for _, failing := range []bool{true, false} {
			b := zzNewBack()
			f := failing
			b.hook = func(kind, key string, n int) (error, bool, bool) {
				if f {
					return errors.New("zz"), false, false
				}
				return nil, false, false
			}
			r := requester.New(8, b, b)
			r.Start()
			end := time.Now().Add(6 * time.Second)
			for n := 0; time.Now().Before(end) && n < 4000; n++ {
				const W = 16
				done := make(chan bool, W)
				q := zzReq{kind: []string{"file", "dir", "name"}[n%3], arg: fmt.Sprint("/w", n)}
				for i := 0; i < W; i++ {
					go func() { q.do(r); done <- true }()
				}
				tm := time.After(30 * time.Second)
				for i := 0; i < W; i++ {
					select {
					case <-done:
					case <-tm:
						zzFail(t, "%d concurrent requests %v (backend fails: %v): only %d came back within 30 s, though the backend answered at once (round %d)", W, q, f, i, n)
					}
				}
			}
			r.Stop()
		}
	})
	t.Run("timeouts", func(t *testing.T) {
		t.Parallel()
		const workers = 2
		b := zzNewBack()
		gate := make(chan bool)
		b.hook = func(kind, key string, n int) (error, bool, bool) {
			if strings.Contains(key, "slow") {
				<-gate
			}
			return nil, false, false
		}
		r := requester.New(workers, b, b)
		r.Start()
		var wg sync.WaitGroup
		// occupy every worker, then queue requests that give up
		for i := 0; i < workers; i++ {
			q := zzReq{kind: "file", arg: fmt.Sprint("/slow", i)}
			go q.do(r)
		}
		for i := 0; b.started("file|/slow0")+b.started("file|/slow1") < workers && i < 500; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		gave := make(chan error, 64)
		for i := 0; i < 18; i++ {
			q := zzReq{kind: []string{"file", "dir", "name"}[i%3], arg: fmt.Sprint("/q", i/6)}
			if i >= 12 {
				q = zzReq{kind: "file", arg: fmt.Sprint("/slow", i%2)}
			}
			wg.Add(1)
			go func() { defer wg.Done(); _, _, err := q.do(r); gave <- err }()
		}
		if !zzWithin(45*time.Second, wg.Wait) {
			zzFail(t, "requests to a nonresponsive backend neither fail nor return within 45 s")
		}
		close(gave)
		n := 0
		for e := range gave {
			if e != nil {
				n++
			}
		}
		zzAudit(t, "requests that gave up %d", n)
		close(gate)
		alive(t, r, b, 6, "t", fmt.Sprintf("after %d requests had given up while all %d workers were busy", n, workers))
		for i := 0; i < 3; i++ {
			q := zzReq{kind: "file", arg: fmt.Sprint("/q", i)}
			if d, _, err := q.do(r); err != nil || d != q.key() {
				zzFail(t, "after the burst %v returns %q, %v", q, d, err)
			}
		}
		r.Stop()
	})
	_ = bytes.MinRead
}
