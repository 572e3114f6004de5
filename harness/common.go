package zz

// Shared pieces of the concrete replays: seeded randomness, reporting, an
// independent implementation of the gocryptfs volume format, and an in-memory
// remote.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rfjakob/eme"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/scrypt"
)

func zzSeed() int64 {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		n = 1
	}
	return int64(n)
}

func zzRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(zzSeed()*1000003 + salt)) }

// zzN scales case counts: thorough runs explore more.
func zzN(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 8
	}
	return quick
}

func zzFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	t.Fatalf("VERIF-FAIL "+f, a...)
}
func zzAudit(t *testing.T, f string, a ...interface{}) { t.Logf("AUDIT "+f, a...) }

func zzBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// zzCatch runs f and reports a panic as text ("" if none).
func zzCatch(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprint("panic: ", x)
		}
	}()
	f()
	return ""
}

// zzWithin runs f and reports whether it came back within d.
func zzWithin(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// ---- independent implementation of the volume format ----

func zzHKDF(key []byte, info string, n int) []byte {
	out := make([]byte, n)
	if _, err := io.ReadFull(hkdf.New(sha256.New, key, nil, []byte(info)), out); err != nil {
		panic(err)
	}
	return out
}

func zzGCM(key []byte, ivLen int) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCMWithNonceSize(b, ivLen)
	if err != nil {
		panic(err)
	}
	return a
}

func zzBE64(n uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, n)
	return b
}

type zzVol struct {
	master []byte
	gcm    cipher.AEAD
	eme    *eme.EMECipher
	raw64  bool
	hkdf   bool
}

func zzNewVol(master []byte, hkdfOn, raw64 bool) *zzVol {
	v := &zzVol{master: master, raw64: raw64, hkdf: hkdfOn}
	ck, ek := master, master
	if hkdfOn {
		ck, ek = zzHKDF(master, "AES-GCM file content encryption", 32), zzHKDF(master, "EME filename encryption", 32)
	}
	v.gcm = zzGCM(ck, 16)
	b, _ := aes.NewCipher(ek)
	v.eme = eme.New(b)
	return v
}

func (v *zzVol) b64() *base64.Encoding {
	if v.raw64 {
		return base64.RawURLEncoding
	}
	return base64.URLEncoding
}

func (v *zzVol) encName(name string, iv []byte) string {
	p := 16 - len(name)%16
	b := append([]byte(name), bytes.Repeat([]byte{byte(p)}, p)...)
	return v.b64().EncodeToString(v.eme.Encrypt(iv, b))
}

// encRaw encrypts a byte string as it is (no padding added).
func (v *zzVol) encRaw(b, iv []byte) string { return v.b64().EncodeToString(v.eme.Encrypt(iv, b)) }

// decName: the specification of name decryption.
func (v *zzVol) decName(c string, iv []byte) (string, bool) {
	b, err := v.b64().DecodeString(c)
	if err != nil || len(b) == 0 || len(b)%16 != 0 || len(b) > 2048 || len(iv) != 16 {
		return "", false
	}
	d := v.eme.Decrypt(iv, b)
	p := int(d[len(d)-1])
	if p < 1 || p > 16 || p >= len(d) {
		return "", false
	}
	for _, x := range d[len(d)-p:] {
		if int(x) != p {
			return "", false
		}
	}
	n := string(d[:len(d)-p])
	if n == "" || n == "." || n == ".." || strings.ContainsAny(n, "/\x00") {
		return "", false
	}
	return n, true
}

func (v *zzVol) encBlock(r *rand.Rand, p []byte, no uint64, id []byte) []byte {
	nonce := zzBytes(r, 16)
	return v.gcm.Seal(nonce, nonce, p, append(zzBE64(no), id...))
}

func zzHeader(id []byte) []byte { return append([]byte{0, 2}, id...) }

func (v *zzVol) encFile(r *rand.Rand, p []byte) []byte {
	if len(p) == 0 {
		return nil
	}
	id := zzBytes(r, 16)
	out := zzHeader(id)
	for i := 0; len(p) > 0; i++ {
		n := len(p)
		if n > 4096 {
			n = 4096
		}
		out = append(out, v.encBlock(r, p[:n], uint64(i), id)...)
		p = p[n:]
	}
	return out
}

// decFile: the specification of a file read.
func (v *zzVol) decFile(b []byte) ([]byte, bool) {
	if len(b) <= 18 {
		return nil, true
	}
	if b[0] != 0 || b[1] != 2 || bytes.Equal(b[2:18], make([]byte, 16)) {
		return nil, false
	}
	id := b[2:18]
	var out []byte
	rest := b[18:]
	for i := 0; len(rest) > 0; i++ {
		n := len(rest)
		if n > 4128 {
			n = 4128
		}
		blk := rest[:n]
		rest = rest[n:]
		if bytes.Equal(blk, make([]byte, 4128)) {
			out = append(out, make([]byte, 4096)...)
			continue
		}
		if len(blk) < 16 || bytes.Equal(blk[:16], make([]byte, 16)) {
			return nil, false
		}
		p, err := v.gcm.Open(nil, blk[:16], blk[16:], append(zzBE64(uint64(i)), id...))
		if err != nil {
			return nil, false
		}
		out = append(out, p...)
	}
	return out, true
}

func zzPlainSize(c uint64) uint64 {
	if c <= 18 {
		return 0
	}
	n := c - 18
	blocks := n / 4128
	if n%4128 != 0 {
		blocks++
	}
	if blocks*32+18 > c {
		return 0
	}
	return c - 18 - blocks*32
}

// conf builds a gocryptfs.conf for the volume.
type zzConf struct {
	Creator      string
	EncryptedKey []byte
	ScryptObject struct {
		Salt            []byte
		N, R, P, KeyLen int
	}
	Version      uint16
	FeatureFlags []string
}

func (v *zzVol) wrap(r *rand.Rand, pw []byte, logN uint) zzConf {
	var c zzConf
	c.Creator = "verif"
	c.Version = 2
	c.ScryptObject.Salt = zzBytes(r, 32)
	c.ScryptObject.N, c.ScryptObject.R, c.ScryptObject.P, c.ScryptObject.KeyLen = 1<<logN, 8, 1, 32
	k, err := scrypt.Key(pw, c.ScryptObject.Salt, 1<<logN, 8, 1, 32)
	if err != nil {
		panic(err)
	}
	ivLen := 12
	c.FeatureFlags = []string{"GCMIV128", "DirIV", "EMENames", "LongNames"}
	if v.hkdf {
		k = zzHKDF(k, "AES-GCM file content encryption", 32)
		ivLen = 16
		c.FeatureFlags = append(c.FeatureFlags, "HKDF")
	}
	if v.raw64 {
		c.FeatureFlags = append(c.FeatureFlags, "Raw64")
	}
	nonce := zzBytes(r, ivLen)
	c.EncryptedKey = zzGCM(k, ivLen).Seal(nonce, nonce, v.master, zzBE64(0))
	return c
}

func (c zzConf) json() []byte {
	b, err := json.MarshalIndent(c, "", "\t")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// ---- in-memory remote ----

type zzInfo struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
	sys  interface{}
}

func (i *zzInfo) Name() string       { return i.name }
func (i *zzInfo) Size() int64        { return i.size }
func (i *zzInfo) Mode() os.FileMode  { return i.mode }
func (i *zzInfo) ModTime() time.Time { return i.mt }
func (i *zzInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *zzInfo) Sys() interface{}   { return i.sys }

type zzRemote struct {
	mu    sync.Mutex
	files map[string][]byte
	dirs  map[string][]os.FileInfo
	stats map[string]os.FileInfo
	fail  func(op, p string) error
	log   []string
}

func zzNewRemote() *zzRemote {
	return &zzRemote{files: map[string][]byte{}, dirs: map[string][]os.FileInfo{}, stats: map[string]os.FileInfo{}}
}

var errZZ = errors.New("no such entry on the remote")

func (m *zzRemote) note(op, p string) error {
	m.log = append(m.log, op+" "+p)
	if m.fail != nil {
		return m.fail(op, p)
	}
	return nil
}
func (m *zzRemote) ReadFile(p string) ([]byte, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.note("ReadFile", p); err != nil {
		return nil, err
	}
	b, ok := m.files[p]
	if !ok {
		return nil, errZZ
	}
	return append([]byte{}, b...), nil
}
func (m *zzRemote) ReadDir(p string) ([]os.FileInfo, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.note("ReadDir", p); err != nil {
		return nil, err
	}
	d, ok := m.dirs[p]
	if !ok {
		return nil, errZZ
	}
	return append([]os.FileInfo{}, d...), nil
}
func (m *zzRemote) Stat(p string) (os.FileInfo, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.note("Stat", p); err != nil {
		return nil, err
	}
	i, ok := m.stats[p]
	if !ok {
		return nil, errZZ
	}
	return i, nil
}

// takeLog returns and clears the operations seen.
func (m *zzRemote) takeLog() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.log
	m.log = nil
	return l
}

// zzNode is a directory or file of the plaintext tree a test builds.
type zzNode struct {
	plain  string
	cipher string // name on the remote
	cpath  string // full remote path
	dir    bool
	data   []byte
	kids   []*zzNode
	iv     []byte
	info   *zzInfo
}

func (n *zzNode) kid(name string) *zzNode {
	for _, k := range n.kids {
		if k.plain == name {
			return k
		}
	}
	return nil
}

func zzJoin(a, b string) string { return filepath.Join(a, b) }

type zzTree struct {
	vol  *zzVol
	rem  *zzRemote
	root *zzNode
	r    *rand.Rand
	tick int
}

// zzNewTree makes an encrypted volume at cRoot with an empty root directory.
func zzNewTree(r *rand.Rand, cRoot string, pw []byte, hk, raw bool) *zzTree {
	t := &zzTree{vol: zzNewVol(zzBytes(r, 32), hk, raw), rem: zzNewRemote(), r: r}
	t.root = &zzNode{plain: "/", cpath: cRoot, dir: true}
	t.initDir(t.root)
	t.rem.files[zzJoin(cRoot, "gocryptfs.conf")] = t.vol.wrap(r, pw, 10).json()
	t.rem.stats[cRoot] = &zzInfo{name: path.Base(cRoot), size: 4096, mode: os.ModeDir | 0755, mt: time.Unix(1500000000, 0)}
	return t
}

func (t *zzTree) initDir(n *zzNode) {
	n.iv = zzBytes(t.r, 16)
	t.rem.files[zzJoin(n.cpath, "gocryptfs.diriv")] = n.iv
	t.rem.dirs[n.cpath] = []os.FileInfo{&zzInfo{name: "gocryptfs.diriv", size: 16, mode: 0400}}
}

func (t *zzTree) add(parent *zzNode, name string, dir bool, data []byte) *zzNode {
	t.tick++
	n := &zzNode{plain: name, dir: dir, data: data}
	n.cipher = t.vol.encName(name, parent.iv)
	n.cpath = zzJoin(parent.cpath, n.cipher)
	n.info = &zzInfo{name: n.cipher, mode: 0640, mt: time.Unix(1400000000+int64(t.tick)*977, 0), sys: t.tick}
	if dir {
		n.info.mode = os.ModeDir | 0750
		n.info.size = 4096
		t.initDir(n)
	} else {
		enc := t.vol.encFile(t.r, data)
		t.rem.files[n.cpath] = enc
		n.info.size = int64(len(enc))
	}
	t.rem.dirs[parent.cpath] = append(t.rem.dirs[parent.cpath], n.info)
	st := *n.info
	t.rem.stats[n.cpath] = &st
	parent.kids = append(parent.kids, n)
	return n
}

// junk adds an entry that does not decrypt.
func (t *zzTree) junk(parent *zzNode, name string, mode os.FileMode) {
	t.rem.dirs[parent.cpath] = append(t.rem.dirs[parent.cpath], &zzInfo{name: name, size: 7, mode: mode})
}

var _ = sort.Strings
