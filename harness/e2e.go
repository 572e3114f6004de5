package zz

// The built program, end to end: it is started with a configuration file, a
// passphrase on a pseudo terminal and a loopback SSH server as its remote, and
// SSH/SFTP clients talk to it on its port.

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
)

const zzPort = "127.0.0.1:9022"

var zzPW = []byte("correct horse")

type zzBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *zzBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}
func (b *zzBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

type zzProxy struct {
	cmd    *exec.Cmd
	out    zzBuf
	ptm    *os.File
	done   chan struct{}
	listen bool // somebody answers at the port
}

func zzPty() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil, nil, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

// zzFree skips the test where the program cannot be run here.
func zzFree(t *testing.T) {
	if os.Getenv("VERIF_PROXY") == "" {
		t.Skip("no program")
	}
	l, err := net.Listen("tcp", "0.0.0.0:9022")
	if err != nil {
		t.Skip("port 9022 is taken")
	}
	l.Close()
	m, s, err := zzPty()
	if err != nil {
		t.Skip("no pseudo terminals here")
	}
	m.Close()
	s.Close()
}

func zzRun(t *testing.T, conf interface{}, pw []byte) *zzProxy {
	t.Helper()
	b, err := json.Marshal(conf)
	if err != nil {
		t.Fatal(err)
	}
	dir, err := ioutil.TempDir("", "proxy")
	if err != nil {
		t.Fatal(err)
	}
	cf := filepath.Join(dir, "conf.json")
	if err := ioutil.WriteFile(cf, b, 0600); err != nil {
		t.Fatal(err)
	}
	m, s, err := zzPty()
	if err != nil {
		t.Skip("no pseudo terminals here")
	}
	p := &zzProxy{ptm: m, done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_PROXY"), "-c", cf)
	p.cmd.Dir = dir
	p.cmd.Stdin = s
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if err := p.cmd.Start(); err != nil {
		t.Skip("cannot run the program: ", err)
	}
	s.Close()
	go func() { _, _ = io.Copy(ioutil.Discard, m) }()
	_, _ = m.Write(append(append([]byte{}, pw...), '\n'))
	go func() { _ = p.cmd.Wait(); close(p.done) }()
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
		select {
		case <-p.done:
			if strings.Contains(p.out.String(), "address already in use") {
				t.Skip("port 9022 is taken")
			}
			return p
		case <-time.After(20 * time.Millisecond):
		}
		if c, err := net.DialTimeout("tcp", zzPort, time.Second); err == nil {
			c.Close()
			p.listen = true
			return p
		}
	}
	return p
}

func (p *zzProxy) dead() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *zzProxy) stop() {
	_ = p.cmd.Process.Kill()
	<-p.done
	p.ptm.Close()
}

type zzSet struct {
	ProxyUser, ProxyPassword, KnownHostsPath string
	Remote                                   struct{ Addr, FileRoot, User, PrivateKeyPath string }
}

// zzSite is a remote with a volume and what is needed to reach it.
type zzSite struct {
	tr  *zzTree
	s   *zzSrv
	key ssh.Signer
	cfg zzSet
	dir string
}

func zzKnown(path string, lines ...string) {
	if err := ioutil.WriteFile(path, []byte(strings.Join(lines, "\n")+"\n"), 0600); err != nil {
		panic(err)
	}
}

func zzMakeSite(t *testing.T, seed int64) *zzSite {
	t.Helper()
	r := zzRand(seed)
	x := &zzSite{tr: zzNewTree(r, "/enc/root", zzPW, true, true)}
	x.tr.add(x.tr.root, "hello.txt", false, []byte("hello, world"))
	d := x.tr.add(x.tr.root, "sub", true, nil)
	x.tr.add(d, "big", false, zzBytes(r, 300000))
	for f, b := range x.tr.rem.files {
		if x.tr.rem.stats[f] == nil {
			x.tr.rem.stats[f] = &zzInfo{name: filepath.Base(f), size: int64(len(b)), mode: 0400, mt: time.Unix(1500000000, 0)}
		}
	}
	x.s = zzServe(x.tr.rem)
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	x.key, _ = ssh.NewSignerFromKey(k)
	x.dir, err = ioutil.TempDir("", "site")
	if err != nil {
		t.Fatal(err)
	}
	kp := filepath.Join(x.dir, "id_rsa")
	if err := ioutil.WriteFile(kp, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0600); err != nil {
		t.Fatal(err)
	}
	x.cfg.ProxyUser, x.cfg.ProxyPassword = "proxyuser", "pr0xy pass"
	x.cfg.KnownHostsPath = filepath.Join(x.dir, "known_hosts")
	zzKnown(x.cfg.KnownHostsPath, knownhosts.Line([]string{x.s.addr}, x.s.key.PublicKey()))
	x.cfg.Remote.Addr, x.cfg.Remote.FileRoot, x.cfg.Remote.User, x.cfg.Remote.PrivateKeyPath = x.s.addr, "/enc/root", "remoteuser", kp
	return x
}

func zzLogin(user string, auth ...ssh.AuthMethod) (*ssh.Client, error) {
	c, err := net.DialTimeout("tcp", zzPort, 40*time.Second)
	if err != nil {
		return nil, err
	}
	_ = c.SetDeadline(time.Now().Add(40 * time.Second))
	sc, chans, reqs, err := ssh.NewClientConn(c, zzPort, &ssh.ClientConfig{User: user, Auth: auth, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
	if err != nil {
		c.Close()
		return nil, err
	}
	_ = c.SetDeadline(time.Time{})
	return ssh.NewClient(sc, chans, reqs), nil
}

func (x *zzSite) client() (*sftp.Client, func(), error) {
	c, err := zzLogin(x.cfg.ProxyUser, ssh.Password(x.cfg.ProxyPassword))
	if err != nil {
		return nil, nil, err
	}
	sc, err := sftp.NewClient(c)
	if err != nil {
		c.Close()
		return nil, nil, err
	}
	return sc, func() { sc.Close(); c.Close() }, nil
}

// look reads the volume through the proxy.
func (x *zzSite) look() string {
	sc, done, err := x.client()
	if err != nil {
		return fmt.Sprintf("login with the configured credentials: %v", err)
	}
	defer done()
	fs, err := sc.ReadDir("/")
	if err != nil || len(fs) != len(x.tr.root.kids) {
		return fmt.Sprintf("ReadDir(/): %d entries, %v", len(fs), err)
	}
	for _, k := range append(append([]*zzNode{}, x.tr.root.kids...), x.tr.root.kid("sub").kids...) {
		if k.dir {
			continue
		}
		p := "/" + k.plain
		if x.tr.root.kid(k.plain) == nil {
			p = "/sub" + p
		}
		f, err := sc.Open(p)
		if err != nil {
			return fmt.Sprintf("Open(%s): %v", p, err)
		}
		b, err := ioutil.ReadAll(f)
		f.Close()
		if err != nil || !bytes.Equal(b, k.data) {
			return fmt.Sprintf("read of %s: %d bytes (%d expected), %v", p, len(b), len(k.data), err)
		}
	}
	return ""
}

func TestVerifC20Login(t *testing.T) {
	zzFree(t)
	n := 0
	for _, cred := range [][2]string{{"proxyuser", "pr0xy pass"}, {"Ü", "ü\x01 \t~"}, {"a", strings.Repeat("long", 60)}} {
		x := zzMakeSite(t, 2001)
		x.cfg.ProxyUser, x.cfg.ProxyPassword = cred[0], cred[1]
		p := zzRun(t, x.cfg, zzPW)
		if !p.listen {
			zzFail(t, "with a valid configuration the proxy does not start: %s", p.out.String())
		}
		u, w := cred[0], cred[1]
		try := func(want bool, what, user string, auth ...ssh.AuthMethod) {
			n++
			c, err := zzLogin(user, auth...)
			if err == nil {
				c.Close()
			}
			if (err == nil) != want {
				zzFail(t, "configured user %q password %q: login %s as %q: accepted %v (%v)", u, w, what, user, err == nil, err)
			}
		}
		try(true, "with the right credentials", u, ssh.Password(w))
		us := []string{"", u + "x", u + "\x00", u[:len(u)-1], strings.ToUpper(u), w, "root", " " + u, u + " "}
		ws := []string{"", w + "x", w + "\x00", w[:len(w)-1], w[1:], strings.ToUpper(w), u, " " + w, w + " ", w + "\n", w + w, w[:1]}
		for _, v := range us {
			if v != u {
				try(false, "with another user name", v, ssh.Password(w))
			}
		}
		for _, v := range ws {
			if v != w {
				try(false, fmt.Sprintf("with password %q", v), u, ssh.Password(v))
			}
		}
		try(false, "with credentials swapped", w, ssh.Password(u))
		try(false, "with empty credentials", "", ssh.Password(""))
		try(false, "without authentication", u)
		try(false, "with the remote's key", u, ssh.PublicKeys(x.key))
		try(false, "with some key", x.cfg.Remote.User, ssh.PublicKeys(zzSigner()))
		for _, a := range []string{w, "", "yes"} {
			a := a
			try(false, "by answering questions", u, ssh.KeyboardInteractive(func(_, _ string, q []string, _ []bool) ([]string, error) {
				r := make([]string, len(q))
				for i := range r {
					r[i] = a
				}
				return r, nil
			}))
		}
		try(true, "with the right credentials, after the refused ones", u, ssh.Password(w))
		if p.dead() {
			zzFail(t, "the proxy died: %s", p.out.String())
		}
		p.stop()
		x.s.close()
	}
	zzAudit(t, "%d logins against the running program", n)
}

func TestVerifC20Config(t *testing.T) {
	zzFree(t)
	x := zzMakeSite(t, 2002)
	defer x.s.close()
	base := func() map[string]interface{} {
		b, _ := json.Marshal(x.cfg)
		m := map[string]interface{}{}
		_ = json.Unmarshal(b, &m)
		return m
	}
	n := 0
	bad := func(what string, conf interface{}) {
		n++
		p := zzRun(t, conf, zzPW)
		defer p.stop()
		if !p.listen {
			return
		}
		for _, u := range []string{"", x.cfg.ProxyUser} {
			for _, w := range []string{"", x.cfg.ProxyPassword} {
				if c, err := zzLogin(u, ssh.Password(w)); err == nil {
					c.Close()
					zzFail(t, "configuration with %s: the proxy serves, and %q logs in with password %q", what, u, w)
				}
			}
		}
		zzFail(t, "configuration with %s: the proxy serves", what)
	}
	for _, f := range []string{"ProxyUser", "ProxyPassword", "KnownHostsPath"} {
		m := base()
		delete(m, f)
		bad("no "+f, m)
		m = base()
		m[f] = ""
		bad("an empty "+f, m)
	}
	for _, f := range []string{"Addr", "FileRoot", "User", "PrivateKeyPath"} {
		m := base()
		delete(m["Remote"].(map[string]interface{}), f)
		bad("no Remote."+f, m)
	}
	m := base()
	delete(m, "Remote")
	bad("no Remote", m)
	bad("nothing in it", map[string]string{})
	bad("a list", []int{1})
	m = base()
	m["ProxyPassword"] = 5
	bad("a number as password", m)
	zzAudit(t, "%d bad configurations given to the program", n)
}

func TestVerifC21Program(t *testing.T) {
	zzFree(t)
	x := zzMakeSite(t, 2101)
	defer x.s.close()
	// a second volume with the same password elsewhere on the remote
	p := zzRun(t, x.cfg, zzPW)
	if !p.listen {
		zzFail(t, "with a valid configuration the proxy does not start: %s", p.out.String())
	}
	if m := x.look(); m != "" {
		zzFail(t, "%s", m)
	}
	x.s.mu.Lock()
	for _, l := range x.s.logins {
		if l != x.cfg.Remote.User+" "+string(x.key.PublicKey().Marshal()) {
			zzFail(t, "logged in to the remote as %.40q, not as configured", l)
		}
	}
	x.s.mu.Unlock()
	for _, l := range x.tr.rem.takeLog() {
		if i := strings.Index(l, " "); !strings.HasPrefix(l[i+1:], "/enc/root") {
			zzFail(t, "outside the configured root: %s", l)
		}
	}
	// the remote comes back with another key: no more of it is served
	x.s.mu.Lock()
	old := x.s.key
	x.s.key = zzSigner()
	x.s.logins = nil
	for c := range x.s.conns {
		c.sc.Close()
	}
	x.s.mu.Unlock()
	x.tr.rem.takeLog()
	sc, done, err := x.client()
	if err == nil {
		ok := zzWithin(60*time.Second, func() {
			_, _ = sc.ReadDir("/")
			if f, err := sc.Open("/hello.txt"); err == nil {
				_, _ = ioutil.ReadAll(f)
				f.Close()
			}
		})
		_ = ok
		done()
	}
	x.s.mu.Lock()
	if len(x.s.logins) > 0 {
		zzFail(t, "logged in to a remote whose host key changed")
	}
	x.s.key = old
	x.s.mu.Unlock()
	p.stop()

	// configurations under which the remote must not be used
	n := 0
	line := knownhosts.Line([]string{x.s.addr}, x.s.key.PublicKey())
	other := knownhosts.Line([]string{x.s.addr}, zzSigner().PublicKey())
	elsewhere := knownhosts.Line([]string{"example.com:22"}, x.s.key.PublicKey())
	for _, c := range []struct {
		what  string
		lines []string
	}{
		{"another key for the remote", []string{other}},
		{"the key of another host", []string{elsewhere}},
		{"no keys", []string{""}},
		{"the key revoked", []string{line, "@revoked * " + strings.SplitN(line, " ", 2)[1]}},
		{"a malformed line", []string{line, "garbage line without key"}},
		{"only a malformed line", []string{"!!"}},
	} {
		n++
		cfg := x.cfg
		cfg.KnownHostsPath = filepath.Join(x.dir, fmt.Sprintf("kh%d", n))
		zzKnown(cfg.KnownHostsPath, c.lines...)
		x.s.mu.Lock()
		x.s.logins = nil
		x.s.mu.Unlock()
		p := zzRun(t, cfg, zzPW)
		x.s.mu.Lock()
		ls := len(x.s.logins)
		x.s.mu.Unlock()
		if ls > 0 {
			zzFail(t, "known-hosts file with %s: the remote is used", c.what)
		}
		if p.listen {
			zzFail(t, "known-hosts file with %s: the proxy serves", c.what)
		}
		p.stop()
	}
	cfg := x.cfg
	cfg.KnownHostsPath = filepath.Join(x.dir, "missing")
	q := zzRun(t, cfg, zzPW)
	if q.listen {
		zzFail(t, "without the known-hosts file: the proxy serves")
	}
	q.stop()
	// right again
	p = zzRun(t, x.cfg, zzPW)
	if !p.listen {
		zzFail(t, "with a valid configuration the proxy does not start: %s", p.out.String())
	}
	if m := x.look(); m != "" {
		zzFail(t, "%s", m)
	}
	p.stop()
	zzAudit(t, "the program with the right, a changed and %d wrong host key settings", n+1)
}

func TestVerifC18Program(t *testing.T) {
	zzFree(t)
	x := zzMakeSite(t, 1801)
	defer x.s.close()
	p := zzRun(t, x.cfg, zzPW)
	defer p.stop()
	if !p.listen {
		zzFail(t, "with a valid configuration the proxy does not start: %s", p.out.String())
	}
	sc, done, err := x.client()
	if err != nil {
		zzFail(t, "login: %v", err)
	}
	defer done()
	n := 0
	refuse := func(what string, err error) {
		n++
		if err == nil {
			zzFail(t, "%s is reported as done", what)
		}
	}
	for _, f := range []string{"/hello.txt", "/sub", "/new", "/sub/new", "/"} {
		w, err := sc.Create(f)
		if err == nil {
			_, err = w.Write([]byte("x"))
			w.Close()
		}
		refuse("writing "+f, err)
		refuse("removing "+f, sc.Remove(f))
		refuse("removing directory "+f, sc.RemoveDirectory(f))
		refuse("making directory "+f, sc.Mkdir(f))
		refuse("renaming "+f, sc.Rename(f, f+"2"))
		refuse("linking "+f, sc.Symlink(f, f+"3"))
		refuse("chmod "+f, sc.Chmod(f, 0600))
		refuse("truncating "+f, sc.Truncate(f, 1))
		refuse("chtimes "+f, sc.Chtimes(f, time.Unix(5, 0), time.Unix(5, 0)))
	}
	if m := x.look(); m != "" {
		zzFail(t, "after the refused changes: %s", m)
	}
	for _, f := range x.s.takeFaults() {
		if strings.Contains(f, "asked") {
			zzFail(t, "%s", f)
		}
	}
	zzAudit(t, "%d changes refused by the program", n)
}

func TestVerifC07Program(t *testing.T) {
	zzFree(t)
	x := zzMakeSite(t, 701)
	defer x.s.close()
	p := zzRun(t, x.cfg, zzPW)
	defer p.stop()
	if !p.listen {
		zzFail(t, "with a valid configuration the proxy does not start: %s", p.out.String())
	}
	// connections that are no SSH
	for _, b := range []string{"", "\n", "GET / HTTP/1.0\r\n\r\n", "SSH-2.0-x\r\n\x00\x00\x00\x00", "SSH-2.0-x\r\n\xff\xff\xff\xff\xff\xff"} {
		if c, err := net.DialTimeout("tcp", zzPort, 5*time.Second); err == nil {
			_, _ = c.Write([]byte(b))
			c.Close()
		}
	}
	// connections that stay open and say nothing, or begin a handshake only
	for _, b := range []string{"", "SSH-2.0-x\r\n"} {
		if c, err := net.DialTimeout("tcp", zzPort, 5*time.Second); err == nil {
			defer c.Close()
			_, _ = c.Write([]byte(b))
		}
	}
	n := 0
	alive := func(what string) {
		n++
		time.Sleep(5 * time.Millisecond)
		if p.dead() {
			s := p.out.String()
			if len(s) > 300 {
				s = s[:300]
			}
			zzFail(t, "%s ends the proxy: %s", what, s)
		}
	}
	c, err := zzLogin(x.cfg.ProxyUser, ssh.Password(x.cfg.ProxyPassword))
	if err != nil {
		alive("a connection that is no SSH")
		zzFail(t, "no login while other connections are in their handshake: %v", err)
	}
	defer c.Close()
	for _, ct := range []string{"", "x11", "direct-tcpip", "session"} {
		ch, _, err := c.OpenChannel(ct, []byte("abc"))
		if err == nil {
			ch.Close()
		}
		alive(fmt.Sprintf("opening a channel of type %q", ct))
	}
	for _, ty := range []string{"subsystem", "exec", "env", ""} {
		for _, pl := range [][]byte{nil, {0}, {0, 0}, {0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 9, 's'}, {255, 255, 255, 255, 's', 'f', 't', 'p'}} {
			ch, _, err := c.OpenChannel("session", nil)
			if err != nil {
				alive(fmt.Sprintf("%q request", ty))
				zzFail(t, "no session: %v", err)
			}
			_, _ = ch.SendRequest(ty, true, pl)
			_, _ = ch.Write([]byte{0, 0, 0, 1, 200})
			if len(pl)%2 == 1 {
				_, _ = ch.Write([]byte{0, 0})
			}
			ch.Close()
			alive(fmt.Sprintf("a %q request with payload %v", ty, pl))
		}
	}
	if m := x.look(); m != "" {
		alive("reading")
		zzFail(t, "after odd requests: %s", m)
	}
	sc, done, err := x.client()
	if err != nil {
		zzFail(t, "login: %v", err)
	}
	defer done()
	for _, f := range []string{"", "/", ".", "..", "../..", "//", "/sub/..", "/sub/../../x", "\x00", "/hello.txt/x", strings.Repeat("a", 5000), strings.Repeat("a/", 300), "/gocryptfs.conf", "/gocryptfs.diriv"} {
		_, _ = sc.Stat(f)
		_, _ = sc.Lstat(f)
		_, _ = sc.ReadDir(f)
		_, _ = sc.ReadLink(f)
		if h, err := sc.Open(f); err == nil {
			_, _ = h.Seek(1<<40, 0)
			_, _ = h.Read(make([]byte, 10))
			h.Close()
		}
		alive(fmt.Sprintf("asking for %.20q", f))
	}
	if m := x.look(); m != "" {
		zzFail(t, "after odd paths: %s", m)
	}
	zzAudit(t, "%d odd connections, channels, requests and paths given to the program", n)
}
