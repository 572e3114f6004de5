package zz

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

// zzSrv is an SSH/SFTP server on the loopback interface that serves a zzRemote
// and records what is done to it.
type zzSrv struct {
	rem  *zzRemote
	addr string
	key  ssh.Signer // host key
	l    net.Listener

	mu      sync.Mutex
	conns   map[*zzConn]bool // open connections
	total   int              // connections ever accepted (after the handshake)
	tcp     int              // TCP connections ever accepted
	faults  []string
	logins  []string // user / key type and key of each accepted login
	noSftp  bool     // refuse the sftp subsystem
	delay   time.Duration
	barrier func(path string)      // called while an operation is in progress
	closing func(path string)      // called while the remote file is being closed
	readErr func(path string) int  // a read of path fails from this offset on (-1: never)
	die     func(path string) bool // after this operation the connection is dead
}

type zzConn struct {
	s      *zzSrv
	active map[string]int
	dying  bool
	sc     *ssh.ServerConn
}

func zzSigner() ssh.Signer {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	s, err := ssh.NewSignerFromKey(k)
	if err != nil {
		panic(err)
	}
	return s
}

func zzServe(rem *zzRemote) *zzSrv {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &zzSrv{rem: rem, addr: l.Addr().String(), key: zzSigner(), l: l, conns: map[*zzConn]bool{}}
	go s.accept()
	return s
}

func (s *zzSrv) close() { s.l.Close() }

func (s *zzSrv) fault(f string, a ...interface{}) {
	s.mu.Lock()
	s.faults = append(s.faults, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *zzSrv) openConns() (int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns), s.total
}

func (s *zzSrv) takeFaults() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.faults
	s.faults = nil
	return f
}

func (s *zzSrv) accept() {
	for {
		n, err := s.l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.tcp++
		s.mu.Unlock()
		go s.serve(n)
	}
}

func (s *zzSrv) serve(n net.Conn) {
	cfg := &ssh.ServerConfig{
		PublicKeyCallback: func(c ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
			s.mu.Lock()
			s.logins = append(s.logins, c.User()+" "+string(k.Marshal()))
			s.mu.Unlock()
			return nil, nil
		},
		PasswordCallback: func(c ssh.ConnMetadata, p []byte) (*ssh.Permissions, error) {
			s.mu.Lock()
			s.logins = append(s.logins, c.User()+" password")
			s.mu.Unlock()
			return nil, nil
		},
	}
	cfg.AddHostKey(s.key)
	sc, chans, reqs, err := ssh.NewServerConn(n, cfg)
	if err != nil {
		n.Close()
		return
	}
	c := &zzConn{s: s, active: map[string]int{}, sc: sc}
	s.mu.Lock()
	s.conns[c] = true
	s.total++
	s.mu.Unlock()
	go func() {
		for r := range reqs {
			s.mu.Lock()
			dead := c.dying
			s.mu.Unlock()
			if dead {
				sc.Close()
				continue
			}
			if r.WantReply {
				_ = r.Reply(false, nil)
			}
		}
	}()
	for nc := range chans {
		if nc.ChannelType() != "session" {
			_ = nc.Reject(ssh.UnknownChannelType, "no")
			s.fault("channel of type %q opened", nc.ChannelType())
			continue
		}
		ch, rq, err := nc.Accept()
		if err != nil {
			continue
		}
		go func() {
			for r := range rq {
				ok := r.Type == "subsystem" && !s.noSftp && len(r.Payload) > 4 && string(r.Payload[4:]) == "sftp"
				_ = r.Reply(ok, nil)
				if ok {
					go func() {
						h := zzH{c}
						_ = sftp.NewRequestServer(ch, sftp.Handlers{FileGet: h, FilePut: h, FileCmd: h, FileList: h}).Serve()
						ch.Close()
					}()
				}
			}
		}()
	}
	s.mu.Lock()
	delete(s.conns, c)
	s.mu.Unlock()
}

func (c *zzConn) enter(what string) {
	s := c.s
	s.mu.Lock()
	if len(c.active) > 0 {
		for k := range c.active {
			if strings.HasPrefix(what, "Stat ") && k == "read "+what[5:] {
				continue // a read asks for the size of the file
			}
			s.faults = append(s.faults, fmt.Sprintf("%q runs on a connection on which %q is still in progress", what, k))
		}
	}
	c.active[what]++
	s.mu.Unlock()
	if s.delay > 0 {
		time.Sleep(s.delay)
	}
}

func (c *zzConn) leave(what string, p string) {
	c.s.mu.Lock()
	if c.active[what]--; c.active[what] <= 0 {
		delete(c.active, what)
	}
	if c.s.die != nil && c.s.die(p) {
		c.dying = true
	}
	c.s.mu.Unlock()
}

type zzH struct{ c *zzConn }

type zzOpen struct {
	*bytes.Reader
	c    *zzConn
	p    string
	from int
	once sync.Once
}

func (o *zzOpen) ReadAt(b []byte, off int64) (int, error) {
	if o.from >= 0 && off+int64(len(b)) > int64(o.from) {
		return 0, errors.New("I/O error on the remote")
	}
	return o.Reader.ReadAt(b, off)
}

func (o *zzOpen) Close() error {
	if o.c.s.delay > 0 {
		time.Sleep(o.c.s.delay)
	}
	if o.c.s.closing != nil {
		o.c.s.closing(o.p)
	}
	o.once.Do(func() { o.c.leave("read "+o.p, o.p) })
	return nil
}

func (h zzH) Fileread(r *sftp.Request) (io.ReaderAt, error) {
	h.c.enter("read " + r.Filepath)
	if h.c.s.barrier != nil {
		h.c.s.barrier(r.Filepath)
	}
	b, err := h.c.s.rem.ReadFile(r.Filepath)
	if err != nil {
		h.c.leave("read "+r.Filepath, r.Filepath)
		return nil, err
	}
	from := -1
	if h.c.s.readErr != nil {
		from = h.c.s.readErr(r.Filepath)
	}
	return &zzOpen{Reader: bytes.NewReader(b), c: h.c, p: r.Filepath, from: from}, nil
}

func (h zzH) Filewrite(r *sftp.Request) (io.WriterAt, error) {
	h.c.s.fault("the remote was asked to write %q", r.Filepath)
	return nil, errors.New("no")
}

func (h zzH) Filecmd(r *sftp.Request) error {
	h.c.s.fault("the remote was asked for %s %q %q", r.Method, r.Filepath, r.Target)
	return errors.New("no")
}

type zzLister []os.FileInfo

func (l zzLister) ListAt(f []os.FileInfo, off int64) (int, error) {
	if off >= int64(len(l)) {
		return 0, io.EOF
	}
	n := copy(f, l[off:])
	if n < len(f) {
		return n, io.EOF
	}
	return n, nil
}

func (h zzH) Filelist(r *sftp.Request) (sftp.ListerAt, error) {
	w := r.Method + " " + r.Filepath
	h.c.enter(w)
	defer h.c.leave(w, r.Filepath)
	switch r.Method {
	case "List":
		d, err := h.c.s.rem.ReadDir(r.Filepath)
		if err != nil {
			return nil, err
		}
		return zzLister(d), nil
	case "Stat":
		i, err := h.c.s.rem.Stat(r.Filepath)
		if err != nil {
			return nil, err
		}
		return zzLister{i}, nil
	}
	return nil, errors.New("no")
}
