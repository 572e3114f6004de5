package zz

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"golang.org/x/crypto/ssh"
)

func zzClientCfg(s *zzSrv, key ssh.Signer) *ssh.ClientConfig {
	return &ssh.ClientConfig{User: "alice", Auth: []ssh.AuthMethod{ssh.PublicKeys(key)}, HostKeyCallback: ssh.FixedHostKey(s.key.PublicKey())}
}

func zzProv(s *zzSrv, key ssh.Signer) *backend.Provider {
	return backend.NewProvider(s.addr, zzClientCfg(s, key), log.New(ioutil.Discard, "", 0))
}

func zzBackRemote(seed int64) *zzRemote {
	rem := zzNewRemote()
	r := zzRand(seed)
	for i := 0; i < 8; i++ {
		p := fmt.Sprintf("/f%d", i)
		rem.files[p] = zzBytes(r, []int{0, 1, 100, 32768, 32769, 100000, 65536, 200000}[i])
		rem.stats[p] = &zzInfo{name: p[1:], size: int64(len(rem.files[p])), mode: 0644}
		d := fmt.Sprintf("/d%d", i)
		for j := 0; j < i*30; j++ {
			rem.dirs[d] = append(rem.dirs[d], &zzInfo{name: fmt.Sprintf("e%d-%d", i, j), size: int64(j), mode: 0644})
		}
		if rem.dirs[d] == nil {
			rem.dirs[d] = []os.FileInfo{}
		}
		rem.stats[d] = &zzInfo{name: d[1:], mode: os.ModeDir | 0755}
	}
	return rem
}

// zzOp performs one operation and says what is wrong with the answer.
func zzOp(p *backend.Provider, rem *zzRemote, kind int, path string, wantErr bool) string {
	switch kind {
	case 0:
		b, err := p.ReadFile(path)
		if wantErr != (err != nil) {
			return fmt.Sprintf("ReadFile(%s): error %v", path, err)
		}
		if err != nil && b != nil {
			return fmt.Sprintf("ReadFile(%s): data with the error %v", path, err)
		}
		if err == nil && !bytes.Equal(b, rem.files[path]) {
			return fmt.Sprintf("ReadFile(%s): %d bytes that differ from the remote's %d", path, len(b), len(rem.files[path]))
		}
	case 1:
		l, err := p.ReadDir(path)
		if wantErr != (err != nil) {
			return fmt.Sprintf("ReadDir(%s): error %v", path, err)
		}
		if err != nil {
			return ""
		}
		if len(l) != len(rem.dirs[path]) {
			return fmt.Sprintf("ReadDir(%s): %d entries, not %d", path, len(l), len(rem.dirs[path]))
		}
		for i := range l {
			if l[i].Name() != rem.dirs[path][i].Name() || l[i].Size() != rem.dirs[path][i].Size() {
				return fmt.Sprintf("ReadDir(%s): entry %d is %s", path, i, l[i].Name())
			}
		}
	case 2:
		i, err := p.Stat(path)
		if wantErr != (err != nil) {
			return fmt.Sprintf("Stat(%s): error %v", path, err)
		}
		if err == nil && (i.Size() != rem.stats[path].Size() || i.Mode() != rem.stats[path].Mode()) {
			return fmt.Sprintf("Stat(%s): %d %v", path, i.Size(), i.Mode())
		}
	}
	return ""
}

func zzEventually(f func() bool) bool {
	for i := 0; i < 1000; i++ {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

func zzFaults(t *testing.T, s *zzSrv) {
	for i, f := range s.takeFaults() {
		if i < 3 {
			zzFail(t, "%s", f)
		}
	}
}

func TestVerifC17Sharing(t *testing.T) {
	key := zzSigner()
	rem := zzBackRemote(17)
	s := zzServe(rem)
	defer s.close()
	s.delay = 2 * time.Millisecond
	s.readErr = func(p string) int {
		if strings.HasPrefix(p, "/f5") {
			return 50000
		}
		return -1
	}
	p := zzProv(s, key)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	n := zzN(25)
	for g := 0; g < 8; g++ { // paths of its own for every user, to tell them apart
		for i := 0; i < 8; i++ {
			f, d := fmt.Sprintf("/f%d", i), fmt.Sprintf("/d%d", i)
			sf := fmt.Sprintf("-%d", g)
			rem.files[f+sf], rem.stats[f+sf], rem.dirs[d+sf], rem.stats[d+sf] = rem.files[f], rem.stats[f], rem.dirs[d], rem.stats[d]
		}
	}
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := zzRand(int64(1700 + g))
			for i := 0; i < n; i++ {
				k := r.Intn(3)
				path := fmt.Sprintf("/%s%d-%d", []string{"f", "d", "f"}[k], r.Intn(8), g)
				fails := k == 0 && strings.HasPrefix(path, "/f5")
				if r.Intn(4) == 0 {
					path, fails = fmt.Sprintf("/missing-%d", g), true
				}
				if m := zzOp(p, rem, k, path, fails); m != "" {
					mu.Lock()
					bad = append(bad, m)
					mu.Unlock()
				}
			}
		}()
	}
	if !zzWithin(100*time.Second, wg.Wait) {
		zzFail(t, "requests to the remote do not come to an end")
	}
	for i, m := range bad {
		if i < 3 {
			zzFail(t, "%s", m)
		}
	}
	zzFaults(t, s)
	o, total := s.openConns()
	if total > 8 || o != total {
		zzFail(t, "8 concurrent users, no broken connection: %d connections made, %d still open", total, o)
	}
	zzAudit(t, "8 goroutines, %d operations each over %d connections, files of up to 200000 bytes", n, total)
}

func TestVerifC17Sequence(t *testing.T) {
	key := zzSigner()
	for kind := 0; kind < 3; kind++ {
		rem := zzBackRemote(18)
		s := zzServe(rem)
		p := zzProv(s, key)
		good := []string{"/f3", "/d3", "/f3"}[kind]
		// one connection does for a sequence of operations, failing ones included
		for i := 0; i < 6; i++ {
			if m := zzOp(p, rem, kind, good, false); m != "" {
				zzFail(t, "%s", m)
			}
			if m := zzOp(p, rem, kind, "/missing", true); m != "" {
				zzFail(t, "%s", m)
			}
		}
		if o, total := s.openConns(); o != 1 || total != 1 {
			zzFail(t, "a sequence of operations of kind %d used %d connections, %d still open", kind, total, o)
		}
		// a connection that dies with a failing operation is not used again
		s.die = func(path string) bool { return path == "/dead" }
		for i := 0; i < 4; i++ {
			if m := zzOp(p, rem, kind, "/dead", true); m != "" {
				zzFail(t, "%s", m)
			}
			if m := zzOp(p, rem, kind, good, false); m != "" {
				zzFail(t, "after a connection died: %s", m)
			}
		}
		if !zzEventually(func() bool { o, _ := s.openConns(); return o == 1 }) {
			o, total := s.openConns()
			zzFail(t, "after 4 of them died, %d of %d connections are open", o, total)
		}
		zzFaults(t, s)
		s.close()
	}
	zzAudit(t, "ReadFile, ReadDir, Stat: alternating success and failure on one connection; 4 connections dying")
}

// While a request still closes its file, other requests have connections of their own.
func TestVerifC17Closing(t *testing.T) {
	key := zzSigner()
	for kind := 0; kind < 3; kind++ {
		rem := zzBackRemote(24)
		s := zzServe(rem)
		p := zzProv(s, key)
		kind := kind
		s.closing = func(path string) {
			if path != "/f3" {
				return
			}
			m := ""
			if !zzWithin(20*time.Second, func() { m = zzOp(p, rem, kind, []string{"/f2", "/d2", "/f2"}[kind], false) }) {
				s.fault("an operation of kind %d waits for another request to close its file", kind)
			} else if m != "" {
				s.fault("while another request closes its file: %s", m)
			}
		}
		if m := zzOp(p, rem, 0, "/f3", false); m != "" {
			zzFail(t, "%s", m)
		}
		zzFaults(t, s)
		s.close()
	}
	zzAudit(t, "an operation of each kind while another request closes its file")
}

// What does not fit in the pool is closed.
func TestVerifC17Overflow(t *testing.T) {
	key := zzSigner()
	rem := zzBackRemote(19)
	s := zzServe(rem)
	defer s.close()
	const N = 36
	var in sync.WaitGroup
	in.Add(N)
	s.barrier = func(string) {
		in.Done()
		zzWithin(60*time.Second, in.Wait)
	}
	p := zzProv(s, key)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for i := 0; i < N; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if m := zzOp(p, rem, 0, fmt.Sprintf("/f%d", i%8), false); m != "" {
				mu.Lock()
				bad = m
				mu.Unlock()
			}
		}()
	}
	if !zzWithin(100*time.Second, wg.Wait) {
		zzFail(t, "requests to the remote do not come to an end")
		return
	}
	if bad != "" {
		zzFail(t, "%s", bad)
	}
	zzFaults(t, s)
	if _, total := s.openConns(); total != N {
		zzFail(t, "%d concurrent requests ran on %d connections", N, total)
	}
	if !zzEventually(func() bool { o, _ := s.openConns(); return o <= 32 }) {
		o, _ := s.openConns()
		zzFail(t, "after %d concurrent requests %d connections stay open; the pool holds 32", N, o)
	}
	zzAudit(t, "%d concurrent reads, pool of 32", N)
}

// A server that takes the login but offers no sftp.
func TestVerifC17HalfOpen(t *testing.T) {
	key := zzSigner()
	rem := zzBackRemote(20)
	s := zzServe(rem)
	defer s.close()
	s.noSftp = true
	p := zzProv(s, key)
	for i := 0; i < 3; i++ {
		for k := 0; k < 3; k++ {
			m := ""
			if pan := zzCatch(func() { m = zzOp(p, rem, k, "/f1", true) }); pan != "" {
				m = "panic: " + pan
			}
			if m != "" {
				zzFail(t, "no sftp subsystem: %s", m)
			}
		}
	}
	if !zzEventually(func() bool { o, _ := s.openConns(); return o == 0 }) {
		o, total := s.openConns()
		zzFail(t, "%d of %d connections without an sftp session stay open", o, total)
	}
	s.mu.Lock()
	s.noSftp = false
	s.mu.Unlock()
	if m := zzOp(p, rem, 0, "/f3", false); m != "" {
		zzFail(t, "after the sftp subsystem came back: %s", m)
	}
	zzAudit(t, "9 attempts against a server without sftp")
}

func TestVerifC21Dial(t *testing.T) {
	key := zzSigner()
	rem := zzBackRemote(21)
	s := zzServe(rem)
	defer s.close()
	other := zzServe(rem) // answers at another address, with another key
	defer other.close()
	p := zzProv(s, key)
	for k := 0; k < 3; k++ {
		if m := zzOp(p, rem, k, []string{"/f1", "/d1", "/f1"}[k], false); m != "" {
			zzFail(t, "%s", m)
		}
	}
	s.mu.Lock()
	for _, l := range s.logins {
		if l != "alice "+string(key.PublicKey().Marshal()) {
			zzFail(t, "login as %.40q", l)
		}
	}
	s.mu.Unlock()
	// wrong host key: no login is attempted, nothing is served
	bad := &ssh.ClientConfig{User: "alice", Auth: []ssh.AuthMethod{ssh.PublicKeys(key)}, HostKeyCallback: ssh.FixedHostKey(s.key.PublicKey())}
	q := backend.NewProvider(other.addr, bad, log.New(ioutil.Discard, "", 0))
	for k := 0; k < 3; k++ {
		m := ""
		if pan := zzCatch(func() { m = zzOp(q, rem, k, []string{"/f1", "/d1", "/f1"}[k], true) }); pan != "" {
			m = "panic: " + pan
		}
		if m != "" {
			zzFail(t, "unknown host key: %s", m)
		}
	}
	other.mu.Lock()
	if len(other.logins) > 0 {
		zzFail(t, "logged in to a server with the wrong host key as %.40q", other.logins[0])
	}
	other.mu.Unlock()
	// nobody listens: an error
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err == nil {
		a := l.Addr().String()
		l.Close()
		q := backend.NewProvider(a, bad, log.New(ioutil.Discard, "", 0))
		if pan := zzCatch(func() { _, err = q.ReadFile("/f1") }); pan != "" || err == nil {
			zzFail(t, "remote not listening: panic %q, error %v", pan, err)
		}
	}
	zzAudit(t, "dial with the right and a wrong host key, and to a closed port")
}

func TestVerifC18Remote(t *testing.T) {
	key := zzSigner()
	rem := zzBackRemote(22)
	s := zzServe(rem)
	defer s.close()
	p := zzProv(s, key)
	for i := 0; i < 8; i++ {
		for k := 0; k < 3; k++ {
			zzOp(p, rem, k, fmt.Sprintf("/%s%d", []string{"f", "d", "f"}[k], i), false)
			zzOp(p, rem, k, fmt.Sprintf("/no%d", i), true)
		}
	}
	zzFaults(t, s)
	zzAudit(t, "48 operations seen by a remote that records changes")
}

func TestVerifC01Remote(t *testing.T) {
	key := zzSigner()
	rem := zzBackRemote(23)
	s := zzServe(rem)
	defer s.close()
	p := zzProv(s, key)
	for i := 0; i < 8; i++ {
		if m := zzOp(p, rem, 0, fmt.Sprintf("/f%d", i), false); m != "" {
			zzFail(t, "%s", m)
		}
	}
	for _, off := range []int{0, 1, 32768, 65536, 99999, 199999} {
		s.mu.Lock()
		s.readErr = func(string) int { return off }
		s.mu.Unlock()
		for i := 0; i < 8; i++ {
			path := fmt.Sprintf("/f%d", i)
			if off >= len(rem.files[path]) {
				continue
			}
			b, err := p.ReadFile(path)
			if err == nil {
				zzFail(t, "ReadFile(%s) of %d bytes: reading fails at %d on the remote, yet %d bytes come without an error", path, len(rem.files[path]), off, len(b))
			}
		}
	}
	zzAudit(t, "8 files over the loopback, read errors at 6 offsets")
}
