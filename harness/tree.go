package zz

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
)

var zzPW = []byte("correct horse")

func zzInit(t *testing.T, tr *zzTree) *filetree.FileTree {
	t.Helper()
	f, err := filetree.Init(tr.root.cpath, append([]byte{}, zzPW...), 4, tr.rem)
	if err != nil {
		zzFail(t, "a valid volume does not open: %v", err)
	}
	return f
}

func TestVerifC01(t *testing.T) {
	n := 0
	for v := 0; v < 4; v++ {
		r := zzRand(int64(100 + v))
		tr := zzNewTree(r, "/enc/root", zzPW, v&1 == 0, v&2 == 0)
		dir := tr.add(tr.root, "dir", true, nil)
		type tc struct {
			path string
			what string
		}
		var cs []tc
		addc := func(what string, c []byte) {
			n++
			par, pp := tr.root, ""
			if n%2 == 0 {
				par, pp = dir, "/dir"
			}
			nm := fmt.Sprintf("f%d", n)
			k := tr.add(par, nm, false, nil)
			tr.rem.files[k.cpath] = c
			k.data = c
			cs = append(cs, tc{pp + "/" + nm, what})
		}
		lens := []int{0, 1, 15, 16, 17, 4064, 4095, 4096, 4097, 4112, 4128, 8191, 8192, 8193, 12289, 131071, 131072, 131073, 131072 + 4095, 135168, 135169, 139264, 300001}
		for i := 0; i < zzN(12); i++ {
			lens = append(lens, r.Intn(20000))
		}
		for _, l := range lens {
			c := tr.vol.encFile(r, zzBytes(r, l))
			addc(fmt.Sprintf("valid file of %d bytes", l), c)
			if len(c) == 0 {
				continue
			}
			x := append([]byte{}, c...)
			i := r.Intn(len(x))
			x[i] ^= 1 << uint(r.Intn(8))
			addc(fmt.Sprintf("file of %d bytes with stored byte %d changed", l, i), x)
			cut := r.Intn(len(c))
			addc(fmt.Sprintf("file of %d bytes cut to %d stored bytes", l, cut), c[:cut])
			if len(c) > 18+4128 {
				y := append([]byte{}, c...)
				b := r.Intn((len(c) - 18) / 4128)
				for j := 0; j < 4128; j++ {
					y[18+b*4128+j] = 0
				}
				addc(fmt.Sprintf("file of %d bytes with hole at block %d", l, b), y)
				y = append([]byte{}, y...)
				y[18+b*4128+4127] = 1
				addc(fmt.Sprintf("file of %d bytes with almost zero block %d", l, b), y)
				z := append([]byte{}, c[:18]...)
				z = append(z, c[18+4128:]...)
				addc(fmt.Sprintf("file of %d bytes with block 0 dropped", l), z)
				w := append(append([]byte{}, c...), c[18:18+4128]...)
				addc(fmt.Sprintf("file of %d bytes with block 0 appended", l), w)
			}
			hz := append([]byte{}, c...)
			hz[1] = 1
			addc("header version 1", hz)
			hz = append([]byte{}, c...)
			copy(hz[2:18], make([]byte, 16))
			addc("zero file ID", hz)
		}
		for i := 0; i <= 18; i++ {
			addc(fmt.Sprintf("%d stored zero bytes", i), make([]byte, i))
		}
		addc("two holes", append(zzHeader(zzBytes(r, 16)), make([]byte, 2*4128)...))
		addc("hole and partial zeros", append(zzHeader(zzBytes(r, 16)), make([]byte, 4128+50)...))
		// zero nonce but authentic
		id := zzBytes(r, 16)
		z := make([]byte, 16)
		addc("authentic block under an all-zero nonce", append(zzHeader(id), tr.vol.gcm.Seal(z, z, zzBytes(r, 100), append(zzBE64(0), id...))...))
		// a short block in the middle
		mid := append(zzHeader(id), tr.vol.encBlock(r, zzBytes(r, 100), 0, id)...)
		mid = append(mid, tr.vol.encBlock(r, zzBytes(r, 100), 1, id)...)
		addc("short block followed by another", mid)
		var fn func(p string) *zzNode
		fn = func(p string) *zzNode {
			if strings.HasPrefix(p, "/dir/") {
				return dir.kid(p[5:])
			}
			return tr.root.kid(p[1:])
		}
		f := zzInit(t, tr)
		type kept struct {
			got, copy []byte
			what      string
		}
		var old []kept
		for round := 0; round < 2; round++ {
			for _, i := range r.Perm(len(cs)) {
				c := cs[i]
				stored := fn(c.path).data
				want, ok := tr.vol.decFile(stored)
				var got []byte
				var err error
				if m := zzCatch(func() { got, err = f.ReadFile(c.path) }); m != "" {
					zzFail(t, "ReadFile of %s: %s", c.what, m)
				}
				if ok && (err != nil || !bytes.Equal(got, want)) {
					zzFail(t, "ReadFile of %s (read %d): %d bytes, error %v; want %d bytes (equal=%v)", c.what, round+1, len(got), err, len(want), bytes.Equal(got, want))
				}
				if !ok && (err == nil || len(got) != 0) {
					zzFail(t, "ReadFile of %s (read %d): %d bytes, error %v; want an error and no data", c.what, round+1, len(got), err)
				}
				old = append(old, kept{got, append([]byte{}, got...), c.what})
			}
			for _, k := range old {
				if !bytes.Equal(k.got, k.copy) {
					zzFail(t, "data returned for %s was changed by a later read", k.what)
				}
			}
		}
	}
	zzAudit(t, "%d stored files, each read twice", n)
}

var _ = filepath.Join
var _ = os.ModeDir
var _ = time.Now
