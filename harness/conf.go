package zz

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"golang.org/x/crypto/scrypt"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
)

var zzPW = []byte("correct horse")

// zzUnlock: the key a config yields under a password, by an independent
// implementation, or why it must be refused.
func zzUnlock(js, pw []byte) ([]byte, string) {
	var c zzConf
	if len(pw) == 0 {
		return nil, "empty password"
	}
	if len(js) == 0 || json.Unmarshal(js, &c) != nil {
		return nil, "config does not parse"
	}
	if c.Version != 2 {
		return nil, "unsupported version"
	}
	has := map[string]bool{}
	for _, f := range c.FeatureFlags {
		has[f] = true
		switch f {
		case "PlaintextNames", "DirIV", "EMENames", "GCMIV128", "LongNames", "AESSIV", "Raw64", "HKDF", "Trezor":
		default:
			return nil, "unknown feature flag"
		}
	}
	if !has["GCMIV128"] || !has["PlaintextNames"] && !(has["DirIV"] && has["EMENames"]) {
		return nil, "required feature flag missing"
	}
	s := c.ScryptObject
	k, err := scrypt.Key(pw, s.Salt, s.N, s.R, s.P, s.KeyLen)
	if err != nil || len(k) != 32 {
		return nil, "unusable scrypt parameters"
	}
	iv := 12
	if has["HKDF"] {
		k, iv = zzHKDF(k, "AES-GCM file content encryption", 32), 16
	}
	if len(c.EncryptedKey) < iv+16 {
		return nil, "wrapped key too short"
	}
	m, err := zzGCM(k, iv).Open(nil, c.EncryptedKey[:iv], c.EncryptedKey[iv:], zzBE64(0))
	if err != nil {
		return nil, "wrapped key does not authenticate"
	}
	if len(m) != 32 {
		return nil, fmt.Sprintf("wrapped key has %d bytes", len(m))
	}
	return m, ""
}

func zzQuietly(f func()) {
	a, b := os.Stderr, os.Stdout
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr, os.Stdout = n, n
		defer func() { os.Stderr, os.Stdout = a, b; n.Close() }()
	}
	f()
}

func TestVerifC22(t *testing.T) {
	n, opened := 0, 0
	try := func(what string, tr *zzTree, js, pw []byte) {
		n++
		cp := zzJoin(tr.root.cpath, "gocryptfs.conf")
		tr.rem.files[cp] = js
		want, why := zzUnlock(js, pw)
		var f *filetree.FileTree
		var err error
		var msg string
		zzQuietly(func() {
			msg = zzCatch(func() { f, err = filetree.Init(tr.root.cpath, append([]byte{}, pw...), 2, tr.rem) })
		})
		ok := msg == "" && err == nil
		if ok && why != "" {
			zzFail(t, "a volume opens with %s although: %s (password %q, config %s)", what, why, pw, js)
		}
		if !ok && why == "" {
			zzFail(t, "a volume does not open with %s: %v %s (password %q, config %s)", what, err, msg, pw, js)
		}
		if err != nil && f != nil {
			zzFail(t, "with %s Init returns a tree and error %v", what, err)
		}
		var key []byte
		var err2 error
		dir, _ := ioutil.TempDir("", "c22")
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "c")
		ioutil.WriteFile(fn, js, 0600)
		zzQuietly(func() { msg = zzCatch(func() { key, _, err2 = configfile.LoadAndDecrypt(fn, pw) }) })
		if msg == "" && why == "" && (err2 != nil || !bytes.Equal(key, want)) {
			zzFail(t, "LoadAndDecrypt with %s: key %x, error %v, want key %x", what, key, err2, want)
		}
		if why != "" && len(key) != 0 {
			zzFail(t, "LoadAndDecrypt produces a key with %s although: %s (password %q, config %s)", what, why, pw, js)
		}
		if !ok {
			return
		}
		opened++
		if bytes.Equal(want, tr.vol.master) && !bytes.Contains(js, []byte("PlaintextNames")) {
			b, err := f.ReadFile("/hello")
			if err != nil || string(b) != "hello, world" {
				zzFail(t, "opened with %s, but the file in it reads as %q, %v (config %s)", what, b, err, js)
			}
		}
	}
	for v := 0; v < 4; v++ {
		r := zzRand(int64(2200 + v))
		hk, raw := v&1 == 0, v&2 == 0
		tr := zzNewTree(r, "/enc/root", zzPW, hk, raw)
		tr.add(tr.root, "hello", false, []byte("hello, world"))
		base := func() zzConf { return tr.vol.wrap(r, zzPW, 10) }
		try("the right password", tr, base().json(), zzPW)
		for _, pw := range []string{"", "correct hors", "correct horse ", "correct horse\n", "Correct horse", "\x00correct horse", "correct horse\x00", "orrect horse", "x"} {
			try("another password", tr, base().json(), []byte(pw))
		}
		try("no password", tr, base().json(), nil)
		for _, ver := range []uint16{0, 1, 3, 4, 258, 512, 65535} {
			c := base()
			c.Version = ver
			try(fmt.Sprintf("version %d", ver), tr, c.json(), zzPW)
		}
		all := []string{"PlaintextNames", "DirIV", "EMENames", "GCMIV128", "LongNames", "AESSIV", "Raw64", "HKDF", "Trezor"}
		for i := 0; i < zzN(60); i++ {
			c := base()
			var fl []string
			for _, f := range c.FeatureFlags {
				if r.Intn(8) > 0 || f == "HKDF" || f == "Raw64" {
					fl = append(fl, f)
				}
			}
			switch r.Intn(6) {
			case 0:
				fl = append(fl, []string{"", "XYZ", "gcmiv128", "GCMIV129", "LongNameMax", " Raw64", "DirIV\x00", "XChaCha20Poly1305", "FIDO2"}[r.Intn(9)])
			case 1:
				f := all[r.Intn(len(all))]
				if f != "Raw64" && f != "HKDF" && f != "AESSIV" {
					fl = append(fl, f)
				}
			}
			r.Shuffle(len(fl), func(a, b int) { fl[a], fl[b] = fl[b], fl[a] })
			c.FeatureFlags = fl
			try(fmt.Sprintf("flags %q", fl), tr, c.json(), zzPW)
		}
		c0 := base()
		for l := 0; l <= len(c0.EncryptedKey)+3; l++ {
			if v > 0 && l%5 != 0 {
				continue
			}
			c := c0
			c.EncryptedKey = make([]byte, l)
			try(fmt.Sprintf("a blank wrapped key of %d bytes", l), tr, c.json(), zzPW)
			copy(c.EncryptedKey, c0.EncryptedKey)
			if l < len(c0.EncryptedKey) {
				try(fmt.Sprintf("the wrapped key cut to %d bytes", l), tr, c.json(), zzPW)
				c.EncryptedKey = append([]byte{}, c0.EncryptedKey...)
				c.EncryptedKey[l] ^= 1 << uint(r.Intn(8))
				try(fmt.Sprintf("byte %d of the wrapped key changed", l), tr, c.json(), zzPW)
			}
		}
		for _, l := range []int{0, 1, 16, 24, 31, 33, 48, 64} {
			k := *tr.vol
			k.master = zzBytes(r, l)
			try(fmt.Sprintf("a wrapped key of %d bytes", l), tr, k.wrap(r, zzPW, 10).json(), zzPW)
		}
		// HKDF flag flipped: the wrapped key does not fit
		c := base()
		if hk {
			c.FeatureFlags = []string{"GCMIV128", "DirIV", "EMENames", "LongNames"}
		} else {
			c.FeatureFlags = append(c.FeatureFlags, "HKDF")
		}
		try("the HKDF flag flipped", tr, c.json(), zzPW)
		c = base()
		c.EncryptedKey = nil
		try("no wrapped key", tr, c.json(), zzPW)
		js := base().json()
		for _, b := range []string{"", "{", "{}", "null", "[]", "\x00", string(js[:len(js)/2]), string(js[:len(js)-2]), `{"Version":2}`} {
			try("other content", tr, []byte(b), zzPW)
		}
		c = base()
		c.ScryptObject.Salt[3] ^= 4
		try("another salt", tr, c.json(), zzPW)
		c = base()
		c.ScryptObject.N = 2048
		try("another cost", tr, c.json(), zzPW)
		c.ScryptObject.N = 1500
		try("an impossible cost", tr, c.json(), zzPW)
		c = base()
		c.ScryptObject.KeyLen = 64
		try("a longer derived key", tr, c.json(), zzPW)
		cp := zzJoin(tr.root.cpath, "gocryptfs.conf")
		good := base().json()
		tr.rem.files[cp] = good
		tr.rem.fail = func(op, p string) error {
			if p == cp {
				return errZZ
			}
			return nil
		}
		if f, err := filetree.Init(tr.root.cpath, zzPW, 2, tr.rem); err == nil || f != nil {
			zzFail(t, "a volume opens although its config cannot be read")
		}
		tr.rem.fail = nil
		// a config elsewhere does not count
		delete(tr.rem.files, cp)
		tr.rem.files["/gocryptfs.conf"], tr.rem.files["gocryptfs.conf"], tr.rem.files["/enc/gocryptfs.conf"] = good, good, good
		if f, err := filetree.Init(tr.root.cpath, zzPW, 2, tr.rem); err == nil || f != nil {
			zzFail(t, "a volume opens without a config of its own")
		}
	}
	zzAudit(t, "%d combinations of config and password against an independent unlocker, %d of which open; file content read after opening", n, opened)
}

// zzSelf runs this test binary again with a job; the job's output.
func zzSelf(job string, args ...string) (string, error) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestVerifJob$", "-test.timeout=60s")
	cmd.Env = append(os.Environ(), "ZZJOB="+job, "ZZARGS="+strings.Join(args, "\x01"))
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func TestVerifJob(t *testing.T) {
	a := strings.Split(os.Getenv("ZZARGS"), "\x01")
	switch os.Getenv("ZZJOB") {
	case "derive":
		s := configfile.ScryptKDF{}
		var sl int
		fmt.Sscan(a[0], &sl, &s.N, &s.R, &s.P, &s.KeyLen)
		s.Salt = make([]byte, sl)
		k := s.DeriveKey(zzPW)
		fmt.Printf("DERIVED %x\n", k)
	case "open":
		_, _, err := configfile.LoadAndDecrypt(a[0], zzPW)
		fmt.Printf("RETURNED %v\n", err)
	case "write":
		signal.Ignore(syscall.SIGXFSZ)
		cf, err := configfile.Load(a[0])
		if err != nil {
			fmt.Println("load:", err)
			return
		}
		cf.Creator = strings.Repeat("new", 3000)
		lim := syscall.Rlimit{Cur: 4000, Max: 4000}
		if a[1] == "limit" {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
				fmt.Println("SKIP", err)
				return
			}
		}
		fmt.Printf("WROTE %v\n", cf.WriteFile())
	}
}

func TestVerifC23(t *testing.T) {
	type pc struct{ salt, n, r, p, l int }
	var cs []pc
	ok := pc{32, 1024, 8, 1, 32}
	for _, x := range []int{-1 << 62, -1024, -1, 0, 1, 2, 256, 512, 1000, 1022, 1023} {
		c := ok
		c.n = x
		cs = append(cs, c)
	}
	for x := -1; x < 8; x++ {
		c := ok
		c.r = x
		cs = append(cs, c)
		c.n = 4096
		c.p = 4
		cs = append(cs, c)
	}
	for _, x := range []int{-3, -1, 0} {
		c := ok
		c.p = x
		cs = append(cs, c)
	}
	for x := 0; x < 32; x++ {
		if x > 2 && x < 29 && x != 16 && x != 8 && x != 24 {
			continue
		}
		c := ok
		c.salt = x
		cs = append(cs, c)
		c = ok
		c.l = x
		cs = append(cs, c)
	}
	cs = append(cs, pc{31, 65536, 8, 1, 64}, pc{64, 65536, 8, 1, 31}, pc{64, 65536, 7, 2, 32}, pc{32, 512, 16, 4, 32}, pc{16, 1024, 16, 1, 64})
	weak := len(cs)
	cs = append(cs, ok, pc{33, 1024, 8, 1, 32}, pc{32, 2048, 8, 1, 32}, pc{32, 1024, 9, 1, 32}, pc{32, 1024, 8, 2, 32}, pc{32, 1024, 8, 1, 33}, pc{64, 2048, 16, 2, 64})
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	errs := make(chan string, len(cs))
	for i, c := range cs {
		wg.Add(1)
		go func(i int, c pc) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			arg := fmt.Sprint(c.salt, " ", c.n, " ", c.r, " ", c.p, " ", c.l)
			out, err := zzSelf("derive", arg)
			if i < weak {
				if strings.Contains(out, "DERIVED") || err == nil {
					errs <- fmt.Sprintf("a key is derived with salt length, N, r, p, key length = %s: %s", arg, out)
				}
				return
			}
			k, _ := scrypt.Key(zzPW, make([]byte, c.salt), c.n, c.r, c.p, c.l)
			if !strings.Contains(out, fmt.Sprintf("DERIVED %x\n", k)) {
				errs <- fmt.Sprintf("not scrypt of the password with salt length, N, r, p, key length = %s: %s", arg, out)
			}
		}(i, c)
	}
	wg.Wait()
	select {
	case e := <-errs:
		zzFail(t, "%s", e)
	default:
	}
	// the same through a config file
	dir, err := ioutil.TempDir("", "c23")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	r := zzRand(23)
	vol := zzNewVol(zzBytes(r, 32), true, true)
	for i := 0; i < 5; i++ {
		c := vol.wrap(r, zzPW, 10)
		switch i {
		case 0:
			c = vol.wrap(r, zzPW, 9)
		case 1:
			c.ScryptObject.R = 4
		case 2:
			c.ScryptObject.P = 0
		case 3:
			c.ScryptObject.Salt = c.ScryptObject.Salt[:31]
		case 4:
			c.ScryptObject.KeyLen = 16
		}
		fn := filepath.Join(dir, fmt.Sprint("weak", i))
		ioutil.WriteFile(fn, c.json(), 0600)
		if out, _ := zzSelf("open", fn); strings.Contains(out, "RETURNED <nil>") {
			zzFail(t, "a config with weak scrypt parameters unlocks: %s", c.json())
		}
	}
	salts := map[string]bool{}
	for logN := -3; logN <= 40; logN++ {
		s := configfile.NewScryptKDF(logN)
		want := 1 << 16
		if logN > 0 {
			want = 1 << uint(logN)
		}
		if s.N != want || s.R != 8 || s.P != 1 || s.KeyLen != 32 || len(s.Salt) != 32 || salts[string(s.Salt)] {
			zzFail(t, "new parameters for cost %d: N=%d r=%d p=%d key length %d salt %x (new: %v)", logN, s.N, s.R, s.P, s.KeyLen, s.Salt, !salts[string(s.Salt)])
		}
		salts[string(s.Salt)] = true
	}
	for i, logN := range []int{10, 11, 12, 0} {
		fn := filepath.Join(dir, fmt.Sprint("new", i))
		var cerr error
		zzQuietly(func() { cerr = configfile.Create(fn, zzPW, i%2 == 1, logN, "verif", false, false, nil) })
		if cerr != nil {
			zzFail(t, "a config cannot be created: %v", cerr)
		}
		js, err := ioutil.ReadFile(fn)
		var c zzConf
		if err != nil || json.Unmarshal(js, &c) != nil {
			zzFail(t, "the config created does not parse: %v %s", err, js)
		}
		want := 1 << 16
		if logN > 0 {
			want = 1 << uint(logN)
		}
		s := c.ScryptObject
		if s.N != want || s.R != 8 || s.P != 1 || s.KeyLen != 32 || len(s.Salt) != 32 || salts[string(s.Salt)] {
			zzFail(t, "config created for cost %d has N=%d r=%d p=%d key length %d salt %x (new: %v)", logN, s.N, s.R, s.P, s.KeyLen, s.Salt, !salts[string(s.Salt)])
		}
		salts[string(s.Salt)] = true
		if m, why := zzUnlock(js, zzPW); why != "" {
			zzFail(t, "the config created for cost %d does not unlock: %s", logN, why)
		} else if salts[string(m)] {
			zzFail(t, "a new volume reuses a key")
		} else {
			salts[string(m)] = true
		}
	}
	zzAudit(t, "%d weak and %d strong parameter sets in separate processes; 5 weak configs; costs -3..40; 4 configs created", weak, len(cs)-weak)
}

func zzWriteConf(t *testing.T, r *rand.Rand, fn string) []byte {
	vol := zzNewVol(zzBytes(r, 32), true, true)
	js := vol.wrap(r, zzPW, 10).json()
	if err := ioutil.WriteFile(fn, js, 0400); err != nil {
		t.Fatal(err)
	}
	return js
}

func TestVerifC26(t *testing.T) {
	dir, err := ioutil.TempDir("", "c26")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	r := zzRand(26)
	mk := func(name string) (string, string, []byte) {
		d := filepath.Join(dir, name)
		os.MkdirAll(d, 0700)
		fn := filepath.Join(d, "gocryptfs.conf")
		return d, fn, zzWriteConf(t, r, fn)
	}
	same := func(what, fn string, want []byte) {
		t.Helper()
		b, err := ioutil.ReadFile(fn)
		if err != nil || !bytes.Equal(b, want) {
			zzFail(t, "%s: %s now holds %q (%v), not the old config", what, filepath.Base(fn), b, err)
		}
	}
	load := func(fn string) *configfile.ConfFile {
		cf, err := configfile.Load(fn)
		if err != nil {
			zzFail(t, "a valid config does not load: %v", err)
		}
		return cf
	}
	// a normal replacement; the old file, seen through a hard link, is untouched
	d, fn, old := mk("ok")
	link := filepath.Join(d, "link")
	if err := os.Link(fn, link); err != nil {
		t.Fatal(err)
	}
	cf := load(fn)
	cf.Creator = "second"
	if err := cf.WriteFile(); err != nil {
		zzFail(t, "a config cannot be written: %v", err)
	}
	same("after a replacement", link, old)
	if got := load(fn); got.Creator != "second" || !bytes.Equal(got.EncryptedKey, cf.EncryptedKey) {
		zzFail(t, "the config written reads back as %+v", got)
	}
	fi, _ := os.Lstat(fn)
	if !fi.Mode().IsRegular() || fi.Mode().Perm()&077 != 0 {
		zzFail(t, "the config written has mode %v", fi.Mode())
	}
	// the name is a symbolic link: what it points to is untouched
	d, fn, old = mk("sym")
	real := filepath.Join(d, "real")
	os.Rename(fn, real)
	os.Symlink(real, fn)
	cf = load(fn)
	cf.Creator = "second"
	if err := cf.WriteFile(); err != nil {
		zzFail(t, "a config cannot be written: %v", err)
	}
	same("after a replacement of a symbolic link", real, old)
	// leftovers of an interrupted run are not written into
	d, fn, old = mk("left")
	victim := filepath.Join(d, "victim")
	ioutil.WriteFile(victim, []byte("keep"), 0600)
	os.Link(victim, fn+".tmp")
	cf = load(fn)
	cf.Creator = "second"
	err = cf.WriteFile()
	same("with a file in the way", victim, []byte("keep"))
	if err != nil {
		same("with a file in the way", fn, old)
	}
	// disk full part way (file size limit, in a separate process)
	_, fn, old = mk("full")
	out, _ := zzSelf("write", fn, "limit")
	if !strings.Contains(out, "SKIP") {
		if strings.Contains(out, "WROTE <nil>") {
			zzFail(t, "a write cut short is reported as success: %s", out)
		}
		same("after a write that was cut short", fn, old)
	}
	// no room for the new file; target is a directory
	d, fn, _ = mk("dir")
	cf = load(fn)
	os.Remove(fn)
	os.MkdirAll(filepath.Join(fn, "x"), 0700)
	if err := cf.WriteFile(); err == nil {
		zzFail(t, "replacing a directory is reported as success")
	}
	_, fn, _ = mk("gone")
	cf = load(fn)
	os.RemoveAll(filepath.Dir(fn))
	if err := cf.WriteFile(); err == nil {
		zzFail(t, "writing into a directory that is gone is reported as success")
	}
	// readers never see a partial file; no reader ever sees it open to others
	_, fn, _ = mk("race")
	stop := make(chan bool)
	bad := make(chan string, 1)
	var wg sync.WaitGroup
	reads := 0
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			reads++
			b, err := ioutil.ReadFile(fn)
			var c zzConf
			if err != nil || json.Unmarshal(b, &c) != nil || len(c.FeatureFlags) == 0 {
				select {
				case bad <- fmt.Sprintf("%d bytes, %v", len(b), err):
				default:
				}
				return
			}
			m, _ := filepath.Glob(filepath.Join(filepath.Dir(fn), "*"))
			for _, x := range m {
				if fi, err := os.Lstat(x); err == nil && fi.Mode().Perm()&077 != 0 {
					select {
					case bad <- fmt.Sprintf("%s with mode %v", x, fi.Mode()):
					default:
					}
				}
			}
		}
	}()
	cf = load(fn)
	end := time.Now().Add(1500 * time.Millisecond)
	writes := 0
	for ; writes < zzN(60) && time.Now().Before(end); writes++ {
		cf.Creator = strings.Repeat("x", 1000+200000*(writes%3))
		if err := cf.WriteFile(); err != nil {
			zzFail(t, "write %d: %v", writes, err)
		}
	}
	close(stop)
	wg.Wait()
	select {
	case m := <-bad:
		zzFail(t, "during a replacement a reader saw %s", m)
	default:
	}
	zzAudit(t, "replacement through hard and symbolic links, leftovers, size limit, failing renames; a reader alongside %d writes", writes)
}
