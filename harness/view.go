package zz

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
)

var zzNames = []string{"a", "b", "ab", "file", "file.txt", "dir", " lead", "trail ", "ü–漢字", "a+b", ".hidden", "..x", "gocryptfs.conf", "gocryptfs.diriv", "-", "x\ny", strings.Repeat("n", 100), strings.Repeat("n", 99) + "m", strings.Repeat("L", 175), "UPPER", "upper", "0123456789abcde", "0123456789abcdef", "0123456789abcdefg"}

// zzBigTree builds a random tree with name reuse across directories, entries
// that do not decrypt, and entries copied in from other directories.
func zzBigTree(r *rand.Rand, cRoot string, dirs int) (*zzTree, []*zzNode, map[*zzNode]string) {
	tr := zzNewTree(r, cRoot, zzPW, r.Intn(2) == 0, r.Intn(2) == 0)
	all := []*zzNode{tr.root}
	ds := []*zzNode{tr.root}
	paths := map[*zzNode]string{tr.root: "/"}
	for i := 0; i < dirs; i++ {
		p := ds[r.Intn(len(ds))]
		if i < 5 {
			p = ds[len(ds)-1] // at least one deep chain
		}
		k := 1 + r.Intn(4)
		for j := 0; j < k; j++ {
			nm := zzNames[r.Intn(len(zzNames))]
			if p.kid(nm) != nil {
				continue
			}
			switch r.Intn(8) {
			case 0:
				tr.junk(p, []string{"gocryptfs.conf", "x", "", "AAAA", "not base64 !", "gocryptfs.longname.abc", "gocryptfs.longname.abc.name", strings.Repeat("A", 22), strings.Repeat("A", 22) + "==", strings.Repeat("_", 44), strings.Repeat("B", 4000)}[r.Intn(11)], 0600)
			case 1:
				o := ds[r.Intn(len(ds))]
				if len(o.kids) > 0 && o != p {
					tr.junk(p, o.kids[r.Intn(len(o.kids))].cipher, os.ModeDir|0700)
				}
			}
			isDir := j == 0 || r.Intn(3) == 0
			var data []byte
			if !isDir {
				data = zzBytes(r, []int{0, 1, 100, 4096, 5000, 9000}[r.Intn(6)])
			}
			n := tr.add(p, nm, isDir, data)
			all = append(all, n)
			paths[n] = path.Join(paths[p], nm)
			if isDir {
				ds = append(ds, n)
			}
		}
	}
	return tr, all, paths
}

func zzUnclean(r *rand.Rand, p string) string {
	switch r.Intn(7) {
	case 0:
		return p + "/"
	case 1:
		return "/" + p
	case 2:
		return strings.Replace(p, "/", "/./", 1)
	case 3:
		return "/zz/.." + p
	case 4:
		return "/../.." + p
	}
	return p
}

func TestVerifC10(t *testing.T) {
	n := 0
	for v := 0; v < zzN(6); v++ {
		r := zzRand(int64(1000 + v))
		root := []string{"/enc/root", "/e", "/", "/very/deep/encrypted root"}[v%4]
		tr, all, paths := zzBigTree(r, root, 40)
		f := zzInit(t, tr)
		for step := 0; step < 300; step++ {
			n++
			nd := all[r.Intn(len(all))]
			p := paths[nd]
			req := zzUnclean(r, p)
			tr.rem.takeLog()
			switch r.Intn(5) {
			case 0, 1:
				got, err := f.ReadFile(req)
				l := tr.rem.takeLog()
				if nd.dir {
					if err == nil {
						zzFail(t, "ReadFile(%q) of a directory succeeds with %d bytes", req, len(got))
					}
					continue
				}
				if err != nil || !bytes.Equal(got, nd.data) {
					zzFail(t, "ReadFile(%q): %d bytes, %v; the entry whose decrypted names match has %d bytes at %s", req, len(got), err, len(nd.data), nd.cpath)
				}
				for _, o := range l {
					if strings.HasPrefix(o, "ReadFile ") && o != "ReadFile "+nd.cpath && !strings.HasSuffix(o, "/gocryptfs.diriv") {
						zzFail(t, "ReadFile(%q) read %q, but the path is stored as %s", req, o, nd.cpath)
					}
				}
			case 2:
				_, err := f.ReadDir(req)
				if (err == nil) != nd.dir {
					zzFail(t, "ReadDir(%q): %v (directory: %v)", req, err, nd.dir)
				}
			case 3:
				// something that does not exist, below or beside
				bad := path.Join(p, "nope")
				if r.Intn(2) == 0 {
					bad = p + "x"
				}
				if tr.find(bad) != nil {
					continue
				}
				if _, err := f.ReadFile(bad); err == nil {
					zzFail(t, "ReadFile(%q) of a path that does not exist succeeds", bad)
				}
				if _, err := f.ReadDir(bad); err == nil {
					zzFail(t, "ReadDir(%q) of a path that does not exist succeeds", bad)
				}
			case 4:
				// a remote failure is reported; afterwards the path resolves again
				k := r.Intn(3)
				tr.rem.mu.Lock()
				tr.rem.fail = func(op, p string) error {
					k--
					if k < 0 {
						return errors.New("remote down")
					}
					return nil
				}
				tr.rem.mu.Unlock()
				g := zzInitNoConf(t, tr)
				g.ReadDir(req)
				g.ReadFile(req)
				tr.rem.mu.Lock()
				tr.rem.fail = nil
				tr.rem.mu.Unlock()
				if nd.dir {
					if _, err := g.ReadDir(req); err != nil {
						zzFail(t, "ReadDir(%q) still fails after the remote recovered: %v", req, err)
					}
				} else if got, err := g.ReadFile(req); err != nil || !bytes.Equal(got, nd.data) {
					zzFail(t, "ReadFile(%q) still fails after the remote recovered: %v", req, err)
				}
			}
		}
		// concurrent resolution
		var wg sync.WaitGroup
		bad := make(chan string, 16)
		g := zzInit(t, tr)
		for c := 0; c < 6; c++ {
			rr := zzRand(int64(1050 + 10*v + c))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					nd := all[rr.Intn(len(all))]
					if nd.dir {
						if l, err := g.ReadDir(paths[nd]); err != nil || len(l) != len(nd.kids) {
							select {
							case bad <- fmt.Sprintf("concurrent ReadDir(%q): %d entries, %v; want %d", paths[nd], len(l), err, len(nd.kids)):
							default:
							}
						}
					} else if got, err := g.ReadFile(paths[nd]); err != nil || !bytes.Equal(got, nd.data) {
						select {
						case bad <- fmt.Sprintf("concurrent ReadFile(%q): %d bytes, %v; want %d", paths[nd], len(got), err, len(nd.data)):
						default:
						}
					}
				}
			}()
		}
		wg.Wait()
		select {
		case m := <-bad:
			zzFail(t, "%s", m)
		default:
		}
	}
	zzAudit(t, "resolutions %d", n)
}

// zzInitNoConf opens the volume while the failure hook is set aside.
func zzInitNoConf(t *testing.T, tr *zzTree) *filetree.FileTree {
	tr.rem.mu.Lock()
	h := tr.rem.fail
	tr.rem.fail = nil
	tr.rem.mu.Unlock()
	f := zzInit(t, tr)
	tr.rem.mu.Lock()
	tr.rem.fail = h
	tr.rem.mu.Unlock()
	return f
}

// find walks the model.
func (t *zzTree) find(p string) *zzNode {
	n := t.root
	for _, c := range strings.Split(path.Clean(p), "/") {
		if c == "" {
			continue
		}
		if n == nil || !n.dir {
			return nil
		}
		n = n.kid(c)
	}
	return n
}

func zzSameInfo(got os.FileInfo, name string, size int64, want os.FileInfo) string {
	switch {
	case got == nil:
		return "nil entry"
	case got.Name() != name:
		return fmt.Sprintf("name %q, want %q", got.Name(), name)
	case got.Size() != size:
		return fmt.Sprintf("size %d, want %d (stored size %d)", got.Size(), size, want.Size())
	case got.Mode() != want.Mode():
		return fmt.Sprintf("mode %v, want %v", got.Mode(), want.Mode())
	case !got.ModTime().Equal(want.ModTime()):
		return fmt.Sprintf("time %v, want %v", got.ModTime(), want.ModTime())
	case got.IsDir() != want.IsDir():
		return fmt.Sprintf("IsDir %v", got.IsDir())
	case got.Sys() != want.Sys():
		return fmt.Sprintf("Sys %v, want %v", got.Sys(), want.Sys())
	}
	return ""
}

var zzSizes = []int64{0, 1, 17, 18, 19, 49, 50, 51, 52, 4145, 4146, 4147, 4178, 4179, 8274, 1 << 20, 1 << 31, 1<<32 + 5, 1 << 40, 1<<62 + 12345}

func TestVerifC11(t *testing.T) {
	n := 0
	for v := 0; v < zzN(6); v++ {
		r := zzRand(int64(1100 + v))
		tr, all, paths := zzBigTree(r, "/enc", 30)
		for _, nd := range all {
			if nd.info != nil && r.Intn(2) == 0 {
				nd.info.size = zzSizes[r.Intn(len(zzSizes))]
				nd.info.mode = nd.info.mode&os.ModeDir | os.FileMode(r.Intn(512)) | []os.FileMode{0, os.ModeSetuid, os.ModeSticky}[r.Intn(3)]
			}
		}
		// an entry for each place in a run of undecryptable ones
		odd := tr.add(tr.root, "odd", true, nil)
		paths[odd] = "/odd"
		all = append(all, odd)
		for i := 0; i < 12; i++ {
			for j := 0; j < r.Intn(4); j++ {
				tr.junk(odd, fmt.Sprintf("foreign%d-%d", i, j), 0600)
			}
			tr.add(odd, fmt.Sprint("e", 11-i), i%2 == 0, nil)
		}
		emp := tr.add(tr.root, "empty", true, nil)
		paths[emp] = "/empty"
		all = append(all, emp)
		none := tr.add(tr.root, "nothing listed", true, nil)
		tr.rem.dirs[none.cpath] = nil
		paths[none] = "/nothing listed"
		all = append(all, none)
		// entries listed more than once, with attributes of their own
		twice := tr.add(tr.root, "twice", true, nil)
		for i := 0; i < 6; i++ {
			k := tr.add(twice, fmt.Sprint("t", i), i%2 == 0, nil)
			for j := 0; j < i%3; j++ {
				d := *k.info
				d.size, d.mode = int64(18+i*40+j), d.mode^os.FileMode(1<<uint(j))
				tr.rem.dirs[twice.cpath] = append(tr.rem.dirs[twice.cpath], &d)
				twice.kids = append(twice.kids, k)
			}
		}
		d := *twice.kids[0].info
		tr.rem.dirs[twice.cpath] = append(tr.rem.dirs[twice.cpath], &d)
		twice.kids = append(twice.kids, twice.kids[0])
		paths[twice] = "/twice"
		all = append(all, twice)
		many := tr.add(tr.root, "many", true, nil)
		for i := 0; i < 300; i++ {
			tr.add(many, fmt.Sprint("entry ", i), false, nil)
		}
		paths[many] = "/many"
		all = append(all, many)
		f := zzInit(t, tr)
		for round := 0; round < 2; round++ {
			for _, nd := range all {
				if !nd.dir {
					continue
				}
				n++
				var l []os.FileInfo
				var err error
				if m := zzCatch(func() { l, err = f.ReadDir(paths[nd]) }); m != "" {
					zzFail(t, "ReadDir(%q): %s", paths[nd], m)
				}
				if err != nil {
					zzFail(t, "ReadDir(%q) fails: %v", paths[nd], err)
				}
				var want []*zzInfo
				var names []string
				for _, e := range tr.rem.dirs[nd.cpath] {
					if p, ok := tr.vol.decName(e.Name(), nd.iv); ok {
						want = append(want, e.(*zzInfo))
						names = append(names, p)
					}
				}
				if len(want) != len(nd.kids) {
					t.Fatalf("harness: %d decryptable, %d kids", len(want), len(nd.kids))
				}
				if len(l) != len(want) {
					zzFail(t, "ReadDir(%q) (listing %d) shows %d entries, %d decrypt", paths[nd], round+1, len(l), len(want))
				}
				for i := range l {
					if m := zzSameInfo(l[i], names[i], int64(zzPlainSize(uint64(want[i].size))), want[i]); m != "" {
						zzFail(t, "ReadDir(%q) entry %d of %d: %s", paths[nd], i, len(l), m)
					}
				}
			}
		}
		tr.rem.fail = func(op, p string) error {
			if op == "ReadDir" {
				return errors.New("down")
			}
			return nil
		}
		g := zzInit(t, tr)
		if l, err := g.ReadDir("/"); err == nil || len(l) != 0 {
			zzFail(t, "ReadDir when the remote listing fails: %d entries, %v", len(l), err)
		}
		tr.rem.fail = nil
	}
	zzAudit(t, "listings %d", n)
}

func TestVerifC12(t *testing.T) {
	n := 0
	for v := 0; v < zzN(6); v++ {
		r := zzRand(int64(1200 + v))
		root := []string{"/enc/root", "/e", "/"}[v%3]
		tr, all, paths := zzBigTree(r, root, 30)
		for i, nd := range all {
			if nd.info == nil {
				continue
			}
			// what stat says may differ from what the listing said
			st := tr.rem.stats[nd.cpath].(*zzInfo)
			st.size = zzSizes[r.Intn(len(zzSizes))]
			st.mode = st.mode&os.ModeDir | os.FileMode(r.Intn(512))
			st.mt = time.Unix(int64(r.Intn(1<<30)), 0)
			st.sys = i * 7
			if r.Intn(4) == 0 {
				st.name = "other"
			}
		}
		f := zzInit(t, tr)
		for step := 0; step < 300; step++ {
			n++
			nd := all[r.Intn(len(all))]
			p := paths[nd]
			req := zzUnclean(r, p)
			want := tr.rem.stats[nd.cpath]
			tr.rem.takeLog()
			var got os.FileInfo
			var err error
			if r.Intn(4) == 0 {
				bad := path.Join(p, "nope")
				if tr.find(bad) == nil {
					if got, err = f.Stat(bad); err == nil {
						zzFail(t, "Stat(%q) of a path that does not exist: %v", bad, got)
					}
				}
				continue
			}
			failing := r.Intn(6) == 0
			if failing {
				tr.rem.mu.Lock()
				tr.rem.fail = func(op, p string) error {
					if op == "Stat" {
						return errors.New("stat fails")
					}
					return nil
				}
				tr.rem.mu.Unlock()
			}
			if m := zzCatch(func() { got, err = f.Stat(req) }); m != "" {
				zzFail(t, "Stat(%q): %s", req, m)
			}
			if failing {
				tr.rem.mu.Lock()
				tr.rem.fail = nil
				tr.rem.mu.Unlock()
				if err == nil {
					zzFail(t, "Stat(%q) succeeds though the remote stat fails", req)
				}
				continue
			}
			if err != nil {
				zzFail(t, "Stat(%q) of an existing %s fails: %v", req, map[bool]string{true: "directory", false: "file"}[nd.dir], err)
			}
			for _, o := range tr.rem.takeLog() {
				if strings.HasPrefix(o, "Stat ") && o != "Stat "+nd.cpath {
					zzFail(t, "Stat(%q) asked %q; the path is stored as %s", req, o, nd.cpath)
				}
			}
			if m := zzSameInfo(got, path.Base(p), int64(zzPlainSize(uint64(want.Size()))), want); m != "" {
				zzFail(t, "Stat(%q): %s", req, m)
			}
		}
	}
	zzAudit(t, "stats %d", n)
}

// zzHostile answers everything with whatever its script says.
type zzHostile struct {
	mu   sync.Mutex
	r    *rand.Rand
	conf map[string][]byte
	iv   []byte
	tr   *zzTree
}

func (h *zzHostile) bytes() []byte {
	switch h.r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return make([]byte, h.r.Intn(9000))
	case 3:
		return zzBytes(h.r, h.r.Intn(60))
	case 4:
		return append(zzHeader(zzBytes(h.r, 16)), zzBytes(h.r, h.r.Intn(9000))...)
	case 5:
		c := h.tr.vol.encFile(h.r, zzBytes(h.r, h.r.Intn(9000)))
		return c[:h.r.Intn(len(c)+1)]
	case 6:
		return append(zzHeader(zzBytes(h.r, 16)), make([]byte, h.r.Intn(9000))...)
	}
	return h.tr.vol.encFile(h.r, zzBytes(h.r, h.r.Intn(200)))
}
func (h *zzHostile) err() error {
	if h.r.Intn(6) == 0 {
		return []error{io.EOF, os.ErrNotExist, errors.New("")}[h.r.Intn(3)]
	}
	return nil
}
func (h *zzHostile) ReadFile(p string) ([]byte, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if b, ok := h.conf[p]; ok {
		return b, nil
	}
	if filepath.Base(p) == "gocryptfs.diriv" {
		if h.r.Intn(4) == 0 {
			return zzBytes(h.r, h.r.Intn(40)), h.err()
		}
		return h.iv, h.err()
	}
	return h.bytes(), h.err()
}
func (h *zzHostile) name() string {
	switch h.r.Intn(9) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("A", h.r.Intn(300))
	case 2:
		return h.tr.vol.encRaw(zzBytes(h.r, 16*(1+h.r.Intn(5))), h.iv)
	case 3:
		return h.tr.vol.encRaw(bytes.Repeat([]byte{byte(h.r.Intn(256))}, 16*(1+h.r.Intn(128))), h.iv)
	case 4:
		b := zzBytes(h.r, 16*(1+h.r.Intn(4)))
		b[len(b)-1] = byte(h.r.Intn(256))
		return h.tr.vol.encRaw(b, h.iv)
	case 5:
		return string(zzBytes(h.r, h.r.Intn(80)))
	case 6:
		return "../../" + strings.Repeat("A", h.r.Intn(30))
	}
	return h.tr.vol.encName(zzNames[h.r.Intn(len(zzNames))], h.iv)
}
func (h *zzHostile) info() os.FileInfo {
	return &zzInfo{name: h.name(), size: []int64{-1, -1 << 63, 1<<63 - 1, 0, 5, 18, 19, 4000, 1 << 40}[h.r.Intn(9)], mode: []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeDevice, 0xffffffff}[h.r.Intn(5)]}
}
func (h *zzHostile) Stat(p string) (os.FileInfo, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if e := h.err(); e != nil {
		return nil, e
	}
	return h.info(), nil
}
func (h *zzHostile) ReadDir(p string) ([]os.FileInfo, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if e := h.err(); e != nil {
		return nil, e
	}
	var l []os.FileInfo
	for i := h.r.Intn(12); i > 0; i-- {
		l = append(l, h.info())
	}
	return l, nil
}

func TestVerifC07(t *testing.T) {
	n := 0
	for v := 0; v < zzN(20); v++ {
		r := zzRand(int64(700 + v))
		tr := zzNewTree(r, "/enc", zzPW, v%2 == 0, v%4 < 2)
		h := &zzHostile{r: r, tr: tr, iv: zzBytes(r, 16), conf: map[string][]byte{"/enc/gocryptfs.conf": tr.rem.files["/enc/gocryptfs.conf"]}}
		f, err := filetree.Init("/enc", append([]byte{}, zzPW...), 2, h)
		if err != nil {
			zzFail(t, "a valid volume does not open: %v", err)
		}
		for step := 0; step < 150; step++ {
			n++
			q := zzRand(int64(step + 1000*v))
			p := "/"
			for i := q.Intn(4); i > 0; i-- {
				p = path.Join(p, zzNames[q.Intn(len(zzNames))])
			}
			switch q.Intn(8) {
			case 0:
				p = ""
			case 1:
				p = string(zzBytes(q, q.Intn(30)))
				if !strings.HasPrefix(p, "/") {
					p = "/" + p
				}
			case 2:
				p += "/../" + strings.Repeat("x", q.Intn(5000))
			}
			if !strings.HasPrefix(p, "/") {
				p = "/" + p
			}
			op := q.Intn(3)
			var m string
			if !zzWithin(20*time.Second, func() {
				m = zzCatch(func() {
					switch op {
					case 0:
						f.ReadFile(p)
					case 1:
						l, _ := f.ReadDir(p)
						for _, e := range l {
							e.Name()
							e.Size()
							e.Mode()
						}
					case 2:
						if i, err := f.Stat(p); err == nil {
							i.Size()
							i.Name()
						}
					}
				})
			}) {
				zzFail(t, "operation %d on %q does not end (seed %d)", op, p, v)
			}
			if m != "" {
				zzFail(t, "operation %d (0 read, 1 list, 2 stat) on %q with a hostile remote (seed %d, step %d): %s", op, p, v, step, m)
			}
		}
	}
	// the decoders by themselves
	for v := 0; v < 4; v++ {
		r := zzRand(int64(790 + v))
		key := zzBytes(r, 32)
		cc := cryptocore.New(append([]byte{}, key...), cryptocore.BackendGoGCM, contentenc.DefaultIVBits, v%2 == 0, false)
		ce := contentenc.New(cc, contentenc.DefaultBS, false)
		nt := nametransform.New(cc.EMECipher, true, v < 2)
		vol := zzNewVol(key, v%2 == 0, v < 2)
		for l := 0; l < 120; l++ {
			for ivl := 0; ivl < 34; ivl++ {
				iv := zzBytes(r, ivl)
				nm := strings.Repeat("A", l)
				if l%3 == 0 && ivl == 16 {
					nm = vol.encRaw(zzBytes(r, 16*(1+l)), iv)
				}
				n++
				if m := zzCatch(func() { nt.DecryptName(nm, iv) }); m != "" {
					zzFail(t, "DecryptName of a %d byte name with a %d byte IV: %s", len(nm), ivl, m)
				}
			}
		}
		for _, x := range []int{2048, 2049, 4096, 10000} {
			nm := vol.b64().EncodeToString(zzBytes(r, x/16*16))
			if m := zzCatch(func() { nt.DecryptName(nm, zzBytes(r, 16)) }); m != "" {
				zzFail(t, "DecryptName of a %d byte name: %s", len(nm), m)
			}
		}
		for l := 0; l < 9000; l += 1 + r.Intn(40) {
			for _, fill := range []bool{false, true} {
				b := make([]byte, l)
				if fill {
					r.Read(b)
				}
				n++
				if m := zzCatch(func() { ce.DecryptBlocks(b, uint64(r.Int63()), zzBytes(r, 16)) }); m != "" {
					zzFail(t, "DecryptBlocks of %d bytes (zero: %v): %s", l, !fill, m)
				}
				if l <= 4128 {
					if m := zzCatch(func() { ce.DecryptBlock(b, uint64(r.Int63()), zzBytes(r, 16)) }); m != "" {
						zzFail(t, "DecryptBlock of %d bytes (zero: %v): %s", l, !fill, m)
					}
				}
			}
		}
	}
	zzAudit(t, "hostile operations %d", n)
}

func zzHandlers(t *testing.T, tr *zzTree) sftp.Handlers {
	h, err := handlers.DecryptHandler(tr.root.cpath, append([]byte{}, zzPW...), 3, tr.rem)
	if err != nil {
		zzFail(t, "a valid volume does not open: %v", err)
	}
	return h
}

func zzReadAll(ra io.ReaderAt) ([]byte, error) {
	return io.ReadAll(io.NewSectionReader(ra, 0, 1<<40))
}

type zzPipe struct {
	io.Reader
	io.WriteCloser
}

// zzServe runs the handlers behind the real SFTP server and returns a client.
func zzServe(t *testing.T, h sftp.Handlers) (*sftp.Client, func()) {
	cr, sw := io.Pipe()
	sr, cw := io.Pipe()
	srv := sftp.NewRequestServer(zzPipe{sr, sw}, h)
	go srv.Serve()
	cl, err := sftp.NewClientPipe(cr, cw)
	if err != nil {
		t.Fatal(err)
	}
	return cl, func() { cr.Close(); sr.Close(); go srv.Close(); go cl.Close() }
}

func TestVerifC18(t *testing.T) {
	r := zzRand(18)
	tr, all, paths := zzBigTree(r, "/enc", 25)
	h := zzHandlers(t, tr)
	n := 0
	methods := []string{"Setstat", "Rename", "Rmdir", "Remove", "Mkdir", "Symlink"}
	targets := []string{"", "/", "/new", "rel", strings.Repeat("t", 3000)}
	ps := []string{"/", "", "/nope", "/a/b/c", "rel", ".", "..", "/" + strings.Repeat("p", 3000)}
	for _, nd := range all {
		ps = append(ps, paths[nd])
	}
	readOnly := func(what string) {
		for _, o := range tr.rem.takeLog() {
			if !strings.HasPrefix(o, "ReadFile ") && !strings.HasPrefix(o, "ReadDir ") && !strings.HasPrefix(o, "Stat ") {
				zzFail(t, "%s made the remote perform %q", what, o)
			}
		}
	}
	for _, p := range ps {
		for _, m := range methods {
			for _, tg := range targets {
				for _, fl := range []uint32{0, 1, 2, 0xffffffff} {
					n++
					rq := &sftp.Request{Method: m, Filepath: p, Target: tg, Flags: fl}
					if fl == 1 {
						rq.Attrs = zzBytes(r, 32)
					}
					if err := h.FileCmd.Filecmd(rq); err == nil {
						zzFail(t, "%s of %q (target %q, flags %x) is answered with success", m, p, tg, fl)
					}
				}
			}
		}
		for _, m := range []string{"Put", "Open", "Create", "Get"} {
			for fl := uint32(0); fl < 64; fl++ {
				n++
				if w, err := h.FilePut.Filewrite(&sftp.Request{Method: m, Filepath: p, Flags: fl}); err == nil || w != nil {
					zzFail(t, "writing %q (flags %x) is not refused: %v, %v", p, fl, w, err)
				}
			}
		}
		if l, err := h.FileList.Filelist(&sftp.Request{Method: "Readlink", Filepath: p}); err == nil {
			zzFail(t, "Readlink of %q succeeds: %v", p, l)
		}
	}
	readOnly("a modifying request")
	f := zzInit(t, tr)
	for round := 0; round < 2; round++ {
		for _, nd := range all {
			p := paths[nd]
			n++
			ra, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: p})
			if nd.dir != (err != nil) {
				zzFail(t, "Fileread(%q): error %v (directory: %v)", p, err, nd.dir)
			}
			if err == nil {
				b, err := zzReadAll(ra)
				if err != nil || !bytes.Equal(b, nd.data) {
					zzFail(t, "Fileread(%q) serves %d bytes (%v), the file has %d", p, len(b), err, len(nd.data))
				}
				if len(nd.data) > 10 {
					x := make([]byte, 5)
					if k, err := ra.ReadAt(x, 3); k != 5 || err != nil || !bytes.Equal(x, nd.data[3:8]) {
						zzFail(t, "reading %q at 3 gives %x (%d, %v), want %x", p, x, k, err, nd.data[3:8])
					}
				}
			}
			if nd.dir {
				want, err := f.ReadDir(p)
				l, err2 := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: p})
				if err != nil || err2 != nil {
					zzFail(t, "listing %q: %v, %v", p, err, err2)
				}
				got := make([]os.FileInfo, len(want)+5)
				k, err := l.ListAt(got, 0)
				if k != len(want) || err != io.EOF {
					zzFail(t, "List(%q) serves %d entries (%v), the decrypted view has %d", p, k, err, len(want))
				}
				for i := range want {
					if m := zzSameInfo(got[i], want[i].Name(), want[i].Size(), want[i]); m != "" {
						zzFail(t, "List(%q) entry %d: %s", p, i, m)
					}
				}
			}
			want, err := f.Stat(p)
			if err != nil {
				zzFail(t, "Stat(%q): %v", p, err)
			}
			l, err := h.FileList.Filelist(&sftp.Request{Method: "Stat", Filepath: p})
			if err != nil {
				zzFail(t, "Stat(%q): %v", p, err)
			}
			got := make([]os.FileInfo, 3)
			k, err := l.ListAt(got, 0)
			if k != 1 || err != io.EOF {
				zzFail(t, "Stat(%q) serves %d entries", p, k)
			}
			if m := zzSameInfo(got[0], want.Name(), want.Size(), want); m != "" {
				zzFail(t, "Stat(%q): %s", p, m)
			}
		}
		for _, p := range []string{"/nope", "/a/nope/x", paths[all[1]] + "/nope"} {
			if tr.find(p) != nil {
				continue
			}
			if ra, err := h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: p}); err == nil {
				zzFail(t, "Fileread(%q) of a missing file: %v", p, ra)
			}
			for _, m := range []string{"List", "Stat"} {
				if l, err := h.FileList.Filelist(&sftp.Request{Method: m, Filepath: p}); err == nil {
					zzFail(t, "%s(%q) of a missing path: %v", m, p, l)
				}
			}
		}
	}
	readOnly("a read")
	// through the real server
	cl, done := zzServe(t, zzHandlers(t, tr))
	defer done()
	for i, nd := range all {
		if i > 20 {
			break
		}
		p := paths[nd]
		refused := map[string]error{
			"Mkdir":     cl.Mkdir(p + "-new"),
			"MkdirHere": cl.Mkdir(p),
			"Remove":    cl.Remove(p),
			"RemoveDir": cl.RemoveDirectory(p),
			"Rename":    cl.Rename(p, "/moved"),
			"Symlink":   cl.Symlink(p, "/link"),
			"Chmod":     cl.Chmod(p, 0777),
			"Chtimes":   cl.Chtimes(p, time.Now(), time.Now()),
			"Chown":     cl.Chown(p, 0, 0),
			"Truncate":  cl.Truncate(p, 0),
		}
		for m, err := range refused {
			n++
			if err == nil {
				zzFail(t, "through the SFTP server: %s of %q succeeds", m, p)
			}
		}
		for _, fl := range []int{os.O_WRONLY, os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_TRUNC, os.O_WRONLY | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_APPEND} {
			n++
			w, err := cl.OpenFile(p, fl)
			if err == nil {
				if _, err = w.Write([]byte("x")); err == nil {
					zzFail(t, "through the SFTP server: a write to %q (flags %x) succeeds", p, fl)
				}
				w.Close()
			}
		}
		if !nd.dir {
			rd, err := cl.Open(p)
			if err != nil {
				zzFail(t, "through the SFTP server: open %q: %v", p, err)
			}
			b, err := io.ReadAll(rd)
			rd.Close()
			if err != nil || !bytes.Equal(b, nd.data) {
				zzFail(t, "through the SFTP server: %q has %d bytes (%v), want %d", p, len(b), err, len(nd.data))
			}
		}
	}
	readOnly("a request through the SFTP server")
	zzAudit(t, "requests %d", n)
}

func TestVerifC19(t *testing.T) {
	r := zzRand(19)
	tr := zzNewTree(r, "/enc", zzPW, true, true)
	sizes := []int{0, 1, 2, 3, 7, 16, 33, 100, 101, 128, 255, 257}
	for _, s := range sizes {
		d := tr.add(tr.root, fmt.Sprint("d", s), true, nil)
		for i := 0; i < s; i++ {
			tr.add(d, fmt.Sprint("e", i), false, nil)
		}
	}
	h := zzHandlers(t, tr)
	n := 0
	for _, s := range sizes {
		p := fmt.Sprint("/d", s)
		l, err := h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: p})
		if err != nil {
			zzFail(t, "List(%q): %v", p, err)
		}
		var plans []func() int
		for k := 1; k <= s+3 && k < 140; k++ {
			k := k
			plans = append(plans, func() int { return k })
		}
		for i := 0; i < 8; i++ {
			plans = append(plans, func() int { return 1 + r.Intn(s+4) })
		}
		for pi, plan := range plans {
			n++
			off, pages := 0, ""
			for guard := 0; ; guard++ {
				k := plan()
				pages += fmt.Sprint(k, " ")
				buf := make([]os.FileInfo, k)
				got, err := l.ListAt(buf, int64(off))
				if got < 0 || got > k || guard > 2*s+10 {
					zzFail(t, "listing of %d entries, page size %d at offset %d: %d entries", s, k, off, got)
				}
				for i := 0; i < got; i++ {
					if want := fmt.Sprint("e", off+i); off+i >= s || buf[i] == nil || buf[i].Name() != want {
						zzFail(t, "listing of %d entries, plan %d, pages %s: place %d delivers %v, want %q", s, pi, pages, off+i, buf[i], want)
					}
				}
				off += got
				if (err == io.EOF) != (got < k) || (err != nil && err != io.EOF) {
					zzFail(t, "listing of %d entries: page of %d at offset %d has %d entries and error %v", s, k, off-got, got, err)
				}
				if err == io.EOF {
					if off != s {
						zzFail(t, "listing of %d entries with pages %s ends after %d entries", s, pages, off)
					}
					break
				}
			}
			// offsets beyond the end
			for _, o := range []int64{int64(s), int64(s) + 1, 1 << 31, 1 << 32, 1<<62 + 3} {
				buf := make([]os.FileInfo, 3)
				if got, err := l.ListAt(buf, o); got != 0 || err != io.EOF {
					zzFail(t, "listing of %d entries at offset %d: %d entries, %v", s, o, got, err)
				}
			}
		}
	}
	cl, done := zzServe(t, h)
	defer done()
	for _, s := range sizes {
		l, err := cl.ReadDir(fmt.Sprint("/d", s))
		if err != nil || len(l) != s {
			zzFail(t, "through the SFTP server: %d of %d entries, %v", len(l), s, err)
		}
		seen := map[string]bool{}
		for _, e := range l {
			seen[e.Name()] = true
		}
		if len(seen) != s {
			zzFail(t, "through the SFTP server: %d distinct of %d entries", len(seen), s)
		}
	}
	zzAudit(t, "page plans %d", n)
}
