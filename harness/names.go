package zz

import (
	"bytes"
	"crypto/aes"
	"math/rand"
	"strings"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/rfjakob/eme"
)

type zzNT struct {
	nt  *nametransform.NameTransform
	vol *zzVol
}

func zzNTs(r *rand.Rand) []zzNT {
	var out []zzNT
	for _, raw := range []bool{false, true} {
		for _, ln := range []bool{true, false} {
			v := zzNewVol(zzBytes(r, 32), ln != raw, raw)
			if ln == raw {
				b, _ := aes.NewCipher(v.master)
				out = append(out, zzNT{nametransform.New(eme.New(b), ln, raw), v})
			} else {
				cc := cryptocore.New(append([]byte{}, v.master...), cryptocore.BackendGoGCM, 128, true, false)
				out = append(out, zzNT{nametransform.New(cc.EMECipher, ln, raw), v})
			}
		}
	}
	return out
}

// zzName makes a legal name of n bytes.
func zzName(r *rand.Rand, n int) string {
	for {
		b := zzBytes(r, n)
		mode := r.Intn(4)
		for i := range b {
			switch mode {
			case 0:
				b[i] = "abc.-_ 09XYZ"[int(b[i])%12]
			case 1:
				b[i] = b[i]%16 + 1 // bytes that look like padding
			}
			if b[i] == 0 || b[i] == '/' {
				b[i] = 0x10
			}
		}
		if s := string(b); s != "." && s != ".." {
			return s
		}
	}
}

func zzIV(r *rand.Rand) []byte {
	iv := zzBytes(r, 16)
	if r.Intn(8) == 0 {
		iv = make([]byte, 16)
	}
	if r.Intn(8) == 0 {
		iv = bytes.Repeat([]byte{0xff}, 16)
	}
	return iv
}

// zzDec decrypts with the real code and compares against the specification.
func zzDec(t *testing.T, n zzNT, c string, iv []byte) (string, error) {
	t.Helper()
	in := append([]byte{}, iv...)
	var p string
	var err error
	if m := zzCatch(func() { p, err = n.nt.DecryptName(c, iv) }); m != "" {
		zzFail(t, "DecryptName(%q, iv %x): %s", c, in, m)
	}
	if !bytes.Equal(in, iv) {
		zzFail(t, "DecryptName(%q) changed the IV %x to %x", c, in, iv)
	}
	if err != nil && p != "" {
		zzFail(t, "DecryptName(%q, iv %x) fails with %v and returns %q", c, in, err, p)
	}
	if err == nil && (p == "" || p == "." || p == ".." || strings.ContainsAny(p, "/\x00")) {
		zzFail(t, "DecryptName(%q, iv %x) returns the unsafe name %q", c, in, p)
	}
	w, ok := n.vol.decName(c, in)
	if ok != (err == nil) || w != p {
		zzFail(t, "DecryptName(%q, iv %x, raw64 %v) = %q, %v; want %q, success %v", c, in, n.vol.raw64, p, err, w, ok)
	}
	return p, err
}

func TestVerifC08(t *testing.T) {
	r := zzRand(8)
	cnt := 0
	for _, n := range zzNTs(r) {
		one := func(p string) {
			cnt++
			iv := zzIV(r)
			in := append([]byte{}, iv...)
			var c string
			if m := zzCatch(func() { c = n.nt.EncryptName(p, iv) }); m != "" {
				zzFail(t, "EncryptName(%q): %s", p, m)
			}
			if !bytes.Equal(in, iv) {
				zzFail(t, "EncryptName(%q) changed the IV", p)
			}
			if w := n.vol.encName(p, iv); c != w {
				zzFail(t, "EncryptName(%q, iv %x, raw64 %v) = %q, the volume format says %q", p, iv, n.vol.raw64, c, w)
			}
			if b, err := n.nt.B64DecodeString(c); err != nil || len(b) != len(p)+16-len(p)%16 || n.nt.B64EncodeToString(b) != c {
				zzFail(t, "EncryptName(%q) = %q is %d bytes (%v)", p, c, len(b), err)
			}
			if d, err := zzDec(t, n, c, iv); err != nil || d != p {
				zzFail(t, "name %q (%d bytes, iv %x) decrypts to %q, %v", p, len(p), iv, d, err)
			}
			h, err := n.nt.EncryptAndHashName(p, iv)
			if err != nil || (len(c) <= 255 && h != c) {
				zzFail(t, "EncryptAndHashName(%q) = %q, %v", p, h, err)
			}
		}
		for l := 1; l <= 255; l++ {
			for i := 0; i < zzN(4); i++ {
				one(zzName(r, l))
			}
			one(strings.Repeat("\x10", l))
			one(strings.Repeat("\x01", l))
			if l > 2 {
				one(strings.Repeat(".", l))
			}
			one(strings.Repeat(string(rune(16-l%16)), l))
		}
		for b := 1; b < 256; b++ {
			if b != '/' && b != '.' {
				one(string([]byte{byte(b)}))
				one(string([]byte{'x', byte(b)}))
				one("fifteen bytes .." + string([]byte{byte(b)}))
			}
		}
		for _, p := range []string{"...", "..a", ".a", "a.", "a..", " ", "\xff\xfe", "é"} {
			one(p)
		}
		// removing the padding accepts exactly what padding produces
		for l := 16; l <= 64; l += 16 {
			for pb := 0; pb < 256; pb++ {
				for k := 0; k < 4; k++ {
					cnt++
					b := []byte(zzName(r, l))
					for j := 1; j <= pb && j <= l; j++ {
						b[l-j] = byte(pb)
					}
					b[l-1] = byte(pb)
					switch {
					case k == 1 && pb > 1 && pb <= l:
						b[l-pb] ^= 0x20 // first padding byte wrong
					case k == 2 && pb > 2 && pb <= l:
						b[l-1-r.Intn(pb-1)] ^= 1
					case k == 3 && pb < l:
						b[l-pb-1] = byte(pb)
					}
					iv := zzIV(r)
					zzDec(t, n, n.vol.encRaw(b, iv), iv)
				}
			}
		}
	}
	zzAudit(t, "C08 %d names", cnt)
}

func TestVerifC09(t *testing.T) {
	r := zzRand(9)
	cnt := 0
	for _, n := range zzNTs(r) {
		raw := func(b []byte) {
			cnt++
			iv := zzIV(r)
			zzDec(t, n, n.vol.encRaw(b, iv), iv)
		}
		padded := func(s string) {
			p := 16 - len(s)%16
			raw(append([]byte(s), bytes.Repeat([]byte{byte(p)}, p)...))
		}
		for _, s := range []string{"", ".", "..", "...", "/", "\x00", "a/b", "/a", "a/", "../x", "..\x00", "a\x00", "\x00a", "./", strings.Repeat("a", 255) + "/", strings.Repeat("\x00", 16), strings.Repeat("/", 16), strings.Repeat(".", 16), "\\", "a\nb"} {
			padded(s)
		}
		for l := 1; l <= 255; l++ {
			// a forbidden byte at every position
			for _, bad := range []byte{0, '/'} {
				for _, pos := range []int{0, l - 1, r.Intn(l), r.Intn(l)} {
					b := []byte(zzName(r, l))
					b[pos] = bad
					padded(string(b))
				}
			}
			padded(zzName(r, l))
		}
		for i := 0; i < zzN(1500); i++ {
			b := zzBytes(r, 16*(1+r.Intn(6)))
			if r.Intn(2) == 0 {
				b[len(b)-1] = byte(r.Intn(20))
			}
			raw(b)
		}
		for _, l := range []int{16 * 127, 16 * 128, 16 * 129, 16 * 200} {
			b := []byte(zzName(r, l))
			b[l-1] = 1
			iv := zzIV(r)
			c := n.nt.B64EncodeToString(b)
			if l <= 2048 {
				c = n.vol.encRaw(b, iv)
			}
			zzDec(t, n, c, iv)
			cnt++
		}
		// names and IVs of any length and alphabet
		for i := 0; i < zzN(1500); i++ {
			cnt++
			var c string
			switch r.Intn(5) {
			case 0:
				c = string(zzBytes(r, r.Intn(80)))
			case 1:
				c = n.nt.B64EncodeToString(zzBytes(r, r.Intn(80)))
			case 2:
				c = n.vol.encName(zzName(r, 1+r.Intn(60)), zzIV(r))
			case 3:
				c = n.vol.encName(zzName(r, 1+r.Intn(60)), zzIV(r)) + "="
			case 4:
				c = strings.TrimRight(n.vol.encName(zzName(r, 1+r.Intn(60)), zzIV(r)), "=")
			}
			iv := zzIV(r)
			if r.Intn(3) == 0 {
				iv = zzBytes(r, r.Intn(40))
			}
			if r.Intn(10) == 0 {
				iv = nil
			}
			zzDec(t, n, c, iv)
		}
		for _, c := range []string{"", "=", "==", "A", "gocryptfs.diriv", "gocryptfs.conf", "gocryptfs.longname.URrM8kgxTKYMgCk4hKk7RO9Lcfr30XQof4L_5bD9Iro=", ".", "..", "AAAA", strings.Repeat("A", 4000)} {
			zzDec(t, n, c, zzIV(r))
			cnt++
		}
	}
	zzAudit(t, "C09 %d names", cnt)
}
