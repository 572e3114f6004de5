package zz

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

type zzEnc struct {
	name  string
	e     *contentenc.ContentEnc
	ivLen int
	key   []byte
	hk    bool
}

func zzEncs(r *rand.Rand) []zzEnc {
	var out []zzEnc
	for _, hk := range []bool{true, false} {
		for _, iv := range []int{16, 12} {
			key := zzBytes(r, 32)
			cc := cryptocore.New(append([]byte{}, key...), cryptocore.BackendGoGCM, iv*8, hk, false)
			out = append(out, zzEnc{fmt.Sprintf("gcm hkdf=%v iv=%d", hk, iv), contentenc.New(cc, 4096, false), iv, key, hk})
		}
		key := zzBytes(r, 32)
		cc := cryptocore.New(append([]byte{}, key...), cryptocore.BackendAESSIV, 128, hk, false)
		out = append(out, zzEnc{fmt.Sprintf("siv hkdf=%v", hk), contentenc.New(cc, 4096, false), 16, key, hk})
	}
	return out
}

func zzSizes(r *rand.Rand) []uint64 {
	s := []uint64{0, 1, 2, 15, 16, 17, 18, 19, 33, 34, 49, 50, 51}
	for _, b := range []uint64{4096, 4128, 4124} {
		for k := uint64(1); k < 70; k++ {
			for d := uint64(0); d < 41; d++ {
				s = append(s, k*b+d, k*b-d, k*b+18+d)
			}
		}
		for _, k := range []uint64{1 << 20, 1 << 32, 1 << 50} {
			s = append(s, k*b, k*b-1, k*b+1, k*b+18, k*b+17, k*b+19)
		}
	}
	for i := 0; i < zzN(3000); i++ {
		s = append(s, r.Uint64()>>uint(r.Intn(64)))
	}
	return s
}

func TestVerifC04(t *testing.T) {
	r := zzRand(4)
	n := 0
	for _, e := range zzEncs(r) {
		bs := uint64(4096 + e.ivLen + 16)
		ov := uint64(e.ivLen + 16)
		spec := func(c uint64) uint64 {
			if c <= 18 {
				return 0
			}
			k := (c-18-1)/bs + 1
			if k*ov+18 > c {
				return 0
			}
			return c - 18 - k*ov
		}
		for _, s := range append(zzSizes(r), ^uint64(0), ^uint64(0)-1, 1<<63, 1<<63-1) {
			n++
			var got uint64
			if m := zzCatch(func() { got = e.e.CipherSizeToPlainSize(s) }); m != "" {
				zzFail(t, "%s: CipherSizeToPlainSize(%d): %s", e.name, s, m)
			}
			if got != spec(s) || got > s {
				zzFail(t, "%s: CipherSizeToPlainSize(%d) = %d, want %d", e.name, s, got, spec(s))
			}
			if s > 1<<62 {
				continue
			}
			want := uint64(0)
			if s > 0 {
				want = s + 18 + ((s-1)/4096+1)*ov
			}
			c := e.e.PlainSizeToCipherSize(s)
			if c != want {
				zzFail(t, "%s: PlainSizeToCipherSize(%d) = %d, want %d", e.name, s, c, want)
			}
			if back := e.e.CipherSizeToPlainSize(c); back != s {
				zzFail(t, "%s: stored size of %d converts back to %d", e.name, s, back)
			}
		}
	}
	zzAudit(t, "C04 %d sizes", n)
}

func TestVerifC05(t *testing.T) {
	r := zzRand(5)
	n := 0
	for _, e := range zzEncs(r) {
		cbs := uint64(4096 + e.ivLen + 16)
		for i := 0; i < zzN(2500); i++ {
			n++
			off := r.Uint64() >> uint(20+r.Intn(44))
			ln := uint64(r.Intn(5)) * 4096
			switch r.Intn(4) {
			case 0:
				off = off / 4096 * 4096
			case 1:
				off = off/cbs*cbs + 18
			}
			switch r.Intn(4) {
			case 0:
				ln = uint64(r.Intn(3))
			case 1:
				ln = uint64(r.Intn(20000))
			case 2:
				ln = uint64(r.Intn(5)) * cbs
			}
			var bl []contentenc.IntraBlock
			if m := zzCatch(func() { bl = e.e.ExplodePlainRange(off, ln) }); m != "" {
				zzFail(t, "%s: ExplodePlainRange(%d, %d): %s", e.name, off, ln, m)
			}
			cur := off
			for j, b := range bl {
				if b.Length == 0 || b.Skip+b.Length > 4096 || b.BlockNo*4096+b.Skip != cur {
					zzFail(t, "%s: ExplodePlainRange(%d, %d): piece %d %+v, expected to start at %d", e.name, off, ln, j, b, cur)
				}
				cur += b.Length
				if b.BlockPlainOff() != b.BlockNo*4096 || b.BlockCipherOff() != 18+b.BlockNo*cbs {
					zzFail(t, "%s: offsets of block %d: plain %d cipher %d", e.name, b.BlockNo, b.BlockPlainOff(), b.BlockCipherOff())
				}
				if p := b.IsPartial(); p != (b.Skip > 0 || b.Length < 4096) {
					zzFail(t, "IsPartial of %+v is %v", b, p)
				}
			}
			if cur != off+ln || (ln == 0 && len(bl) != 0) {
				zzFail(t, "%s: ExplodePlainRange(%d, %d) covers up to %d", e.name, off, ln, cur)
			}
			if len(bl) > 0 {
				f, l := bl[0], bl[len(bl)-1]
				po, pl := contentenc.JointPlaintextRange(bl)
				if po != f.BlockNo*4096 || po+pl != (l.BlockNo+1)*4096 {
					zzFail(t, "%s: JointPlaintextRange for (%d, %d) = %d, %d", e.name, off, ln, po, pl)
				}
				co, cl := f.JointCiphertextRange(bl)
				if co != 18+f.BlockNo*cbs || co+cl != 18+(l.BlockNo+1)*cbs {
					zzFail(t, "%s: JointCiphertextRange for (%d, %d) = %d, %d", e.name, off, ln, co, cl)
				}
			}
			if off < 18 {
				off += 18
			}
			cur = off
			var cb []contentenc.IntraBlock
			if m := zzCatch(func() { cb = e.e.ExplodeCipherRange(off, ln) }); m != "" {
				zzFail(t, "%s: ExplodeCipherRange(%d, %d): %s", e.name, off, ln, m)
			}
			for j, b := range cb {
				if b.Length == 0 || b.Skip+b.Length > cbs || 18+b.BlockNo*cbs+b.Skip != cur {
					zzFail(t, "%s: ExplodeCipherRange(%d, %d): piece %d %+v, expected to start at %d", e.name, off, ln, j, b, cur)
				}
				cur += b.Length
			}
			if cur != off+ln || (ln == 0 && len(cb) != 0) {
				zzFail(t, "%s: ExplodeCipherRange(%d, %d) covers up to %d", e.name, off, ln, cur)
			}
			if g := e.e.PlainOffToBlockNo(off); g != off/4096 {
				zzFail(t, "PlainOffToBlockNo(%d) = %d", off, g)
			}
			if g := e.e.CipherOffToBlockNo(off); g != (off-18)/cbs {
				zzFail(t, "CipherOffToBlockNo(%d) = %d", off, g)
			}
			k := off / 4096
			if g := e.e.BlockNoToPlainOff(k); g != k*4096 {
				zzFail(t, "BlockNoToPlainOff(%d) = %d", k, g)
			}
			if g := e.e.BlockNoToCipherOff(k); g != k*cbs+18 {
				zzFail(t, "BlockNoToCipherOff(%d) = %d", k, g)
			}
			// cropping keeps exactly the wanted part of what is there
			d := zzBytes(r, r.Intn(4097))
			for _, b := range bl {
				if b.Skip > uint64(len(d)) {
					continue
				}
				hi := b.Skip + b.Length
				if hi > uint64(len(d)) {
					hi = uint64(len(d))
				}
				if g := b.CropBlock(d); !bytes.Equal(g, d[b.Skip:hi]) {
					zzFail(t, "CropBlock of %d bytes with %+v has %d bytes", len(d), b, len(g))
				}
			}
		}
	}
	zzAudit(t, "C05 %d ranges", n)
}

func TestVerifC06(t *testing.T) {
	r := zzRand(6)
	n := 0
	ok := func(b []byte) bool {
		return len(b) == 18 && b[0] == 0 && b[1] == 2 && !bytes.Equal(b[2:], make([]byte, 16))
	}
	chk := func(b []byte) {
		n++
		in := append([]byte{}, b...)
		var h *contentenc.FileHeader
		var err error
		if m := zzCatch(func() { h, err = contentenc.ParseHeader(b) }); m != "" {
			zzFail(t, "ParseHeader(%x): %s", in, m)
		}
		if !bytes.Equal(in, b) {
			zzFail(t, "ParseHeader changed its input %x", in)
		}
		if (err == nil) != ok(in) {
			zzFail(t, "ParseHeader(%x): err=%v", in, err)
		}
		if err == nil {
			if h.Version != 2 || !bytes.Equal(h.ID, in[2:]) {
				zzFail(t, "ParseHeader(%x) = %+v", in, h)
			}
			if p := h.Pack(); !bytes.Equal(p, in) {
				zzFail(t, "packing the parsed header %x gives %x", in, p)
			}
		} else if h != nil {
			zzFail(t, "ParseHeader(%x) fails but returns a header", in)
		}
	}
	for v := 0; v < 65536; v += 1 {
		b := append([]byte{byte(v >> 8), byte(v)}, zzBytes(r, 16)...)
		chk(b)
	}
	for l := 0; l < 60; l++ {
		for i := 0; i < 20; i++ {
			b := zzBytes(r, l)
			if l > 1 {
				b[0], b[1] = 0, 2
			}
			chk(b)
		}
		b := make([]byte, l)
		if l > 1 {
			b[1] = 2
		}
		chk(b)
	}
	for i := 0; i < 16; i++ {
		for v := 1; v < 256; v++ {
			b := make([]byte, 18)
			b[1] = 2
			b[2+i] = byte(v)
			chk(b)
		}
	}
	seen := map[string]bool{}
	for i := 0; i < 2000; i++ {
		h := contentenc.RandomHeader()
		p := h.Pack()
		if !ok(p) || seen[string(p)] {
			zzFail(t, "RandomHeader gave %x (valid %v, repeated %v)", p, ok(p), seen[string(p)])
		}
		seen[string(p)] = true
	}
	zzAudit(t, "C06 %d headers", n)
}
