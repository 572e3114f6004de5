package zz

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
)

// zzLRU is the reference: least recently used path first.
type zzLRU struct {
	cap   int
	order []string
	m     map[string]string
}

func (l *zzLRU) touch(k string) {
	for i, x := range l.order {
		if x == k {
			l.order = append(l.order[:i:i], l.order[i+1:]...)
			break
		}
	}
	l.order = append(l.order, k)
}
func (l *zzLRU) find(k string) (string, bool) {
	c, ok := l.m[k]
	if ok {
		l.touch(k)
	}
	return c, ok
}
func (l *zzLRU) store(k, c string) {
	if _, ok := l.m[k]; !ok && len(l.m) == l.cap {
		delete(l.m, l.order[0])
		l.order = l.order[1:]
	}
	l.m[k] = c
	l.touch(k)
}
func (l *zzLRU) clear() { l.order, l.m = nil, map[string]string{} }

func zzTail(ops []string) string {
	if len(ops) > 60 {
		return fmt.Sprintf("(%d operations) ... ", len(ops)) + strings.Join(ops[len(ops)-60:], "; ")
	}
	return strings.Join(ops, "; ")
}

func zzLRURun(t *testing.T, r *rand.Rand, capacity, keys, n int, pStore, pClear float64) {
	fc := filetree.NewFastCache(capacity)
	ref := &zzLRU{cap: capacity, m: map[string]string{}}
	var ops []string
	key := func() string {
		k := r.Intn(keys)
		if k == 0 {
			return ""
		}
		return "/" + strings.Repeat("d/", k%3) + fmt.Sprint(k)
	}
	bad := ""
	if !zzWithin(20*time.Second, func() {
		msg := zzCatch(func() {
			find := func(k string) bool {
				ops = append(ops, fmt.Sprintf("Find(%q)", k))
				d, ok := fc.Find(k)
				c, want := ref.find(k)
				switch {
				case ok != want:
					bad = fmt.Sprintf("found=%v, want %v", ok, want)
				case ok && d.CiphertextPath != c:
					bad = fmt.Sprintf("ciphertext path %q, want %q", d.CiphertextPath, c)
				case ok && d.PlaintextPath != k:
					bad = fmt.Sprintf("plaintext path %q", d.PlaintextPath)
				}
				return bad == ""
			}
			for i := 0; i < n; i++ {
				x := r.Float64()
				switch {
				case x < pClear:
					ops = append(ops, "Clear()")
					fc.Clear()
					ref.clear()
				case x < pClear+pStore:
					k, c := key(), ""
					if r.Intn(8) > 0 {
						c = fmt.Sprintf("c%d", i)
					}
					ops = append(ops, fmt.Sprintf("Store(%q, %q)", k, c))
					fc.Store(k, c)
					ref.store(k, c)
				default:
					if !find(key()) {
						return
					}
				}
			}
			// what is held now: first the absent ones (which changes nothing), then the rest in random order
			for _, pass := range []bool{false, true} {
				for _, k := range r.Perm(keys) {
					p := ""
					if k != 0 {
						p = "/" + strings.Repeat("d/", k%3) + fmt.Sprint(k)
					}
					if _, ok := ref.m[p]; ok == pass && !find(p) {
						return
					}
				}
			}
		})
		if msg != "" {
			bad = "panic: " + msg
		}
	}) {
		bad = "hangs"
	}
	if bad != "" {
		zzFail(t, "path cache of capacity %d: %s; after %s", capacity, bad, zzTail(ops))
	}
}

func TestVerifC13(t *testing.T) {
	r := zzRand(13)
	runs := 0
	// every sequence of up to 6 operations on a cache of capacity 2 with 3 paths
	var seqs func(pre []int, n int)
	names := []string{"/a", "/b", "/c"}
	seqs = func(pre []int, n int) {
		if n == 0 {
			fc, ref := filetree.NewFastCache(2), &zzLRU{cap: 2, m: map[string]string{}}
			var ops []string
			msg := zzCatch(func() {
				for i, o := range pre {
					k := names[o%3]
					if o < 3 {
						c := fmt.Sprint("c", i)
						ops = append(ops, fmt.Sprintf("Store(%q, %q)", k, c))
						fc.Store(k, c)
						ref.store(k, c)
						continue
					}
					if o == 6 {
						ops = append(ops, "Clear()")
						fc.Clear()
						ref.clear()
						continue
					}
					ops = append(ops, fmt.Sprintf("Find(%q)", k))
					d, ok := fc.Find(k)
					c, want := ref.find(k)
					if ok != want || ok && d.CiphertextPath != c {
						zzFail(t, "path cache of capacity 2: found=%v %q, want %v %q; after %s", ok, d.CiphertextPath, want, c, zzTail(ops))
					}
				}
			})
			if msg != "" {
				zzFail(t, "path cache of capacity 2: panic %s; after %s", msg, zzTail(ops))
			}
			runs++
			return
		}
		for o := 0; o < 7; o++ {
			seqs(append(pre[:len(pre):len(pre)], o), n-1)
		}
	}
	seqs(nil, 6)
	for i := 0; i < zzN(3000); i++ {
		capacity := []int{1, 2, 3, 4, 5, 8, 16, 17, 33}[r.Intn(9)]
		keys := 1 + r.Intn(3*capacity)
		zzLRURun(t, r, capacity, keys, r.Intn(12*capacity+10), 0.2+0.6*r.Float64(), []float64{0, 0.01, 0.1}[r.Intn(3)])
		runs++
	}
	// concurrent use: never another path's mapping, never more than the capacity
	for round := 0; round < zzN(12); round++ {
		capacity := 1 + r.Intn(6)
		fc := filetree.NewFastCache(capacity)
		var wg sync.WaitGroup
		errs := make(chan string, 64)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(seed int64) {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seed))
				if msg := zzCatch(func() {
					for i := 0; i < 400; i++ {
						k := fmt.Sprint("/p", rr.Intn(10))
						switch x := rr.Intn(20); {
						case x == 0:
							fc.Clear()
						case x < 10:
							fc.Store(k, k+"!c")
						default:
							if d, ok := fc.Find(k); ok && (d.PlaintextPath != k || d.CiphertextPath != k+"!c") {
								select {
								case errs <- fmt.Sprintf("Find(%q) gave %q, %q", k, d.PlaintextPath, d.CiphertextPath):
								default:
								}
							}
						}
					}
				}); msg != "" {
					select {
					case errs <- "panic: " + msg:
					default:
					}
				}
			}(zzSeed()*7919 + int64(round*6+g))
		}
		if !zzWithin(30*time.Second, wg.Wait) {
			zzFail(t, "concurrent Store/Find/Clear on a path cache of capacity %d do not end", capacity)
		}
		select {
		case m := <-errs:
			zzFail(t, "concurrent Store/Find/Clear on a path cache of capacity %d: %s", capacity, m)
		default:
		}
		n := 0
		for i := 0; i < 10; i++ {
			if _, ok := fc.Find(fmt.Sprint("/p", i)); ok {
				n++
			}
		}
		if n > capacity {
			zzFail(t, "a path cache of capacity %d holds %d paths after concurrent use", capacity, n)
		}
	}
	zzAudit(t, "path cache: %d operation sequences compared with an LRU map (every sequence of 6 on capacity 2), concurrent rounds under the race detector", runs)
}
