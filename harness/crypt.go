package zz

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/jacobsa/crypto/siv"
	"github.com/rfjakob/eme"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

// zzAead: an independent AEAD for the volume key.
type zzAead struct {
	iv  int
	gcm cipher.AEAD
	siv []byte
}

func zzSpecAead(key []byte, hk, sivMode bool, iv int) *zzAead {
	a := &zzAead{iv: iv}
	if sivMode {
		if hk {
			a.siv = zzHKDF(key, "AES-SIV file content encryption", 64)
		} else {
			s := sha512.Sum512(key)
			a.siv = s[:]
		}
		return a
	}
	k := key
	if hk {
		k = zzHKDF(key, "AES-GCM file content encryption", 32)
	}
	a.gcm = zzGCM(k, iv)
	return a
}

func (a *zzAead) seal(nonce, p, ad []byte) []byte {
	if a.siv != nil {
		o, err := siv.Encrypt(nil, a.siv, p, [][]byte{ad, nonce})
		if err != nil {
			panic(err)
		}
		return o
	}
	return a.gcm.Seal(nil, nonce, p, ad)
}

func (a *zzAead) open(nonce, c, ad []byte) ([]byte, bool) {
	if a.siv != nil {
		if len(c) < 16 {
			return nil, false
		}
		o, err := siv.Decrypt(a.siv, c, [][]byte{ad, nonce})
		return o, err == nil
	}
	o, err := a.gcm.Open(nil, nonce, c, ad)
	return o, err == nil
}

func (a *zzAead) encBlock(r *rand.Rand, p []byte, no uint64, id []byte) []byte {
	if len(p) == 0 {
		return nil
	}
	nonce := zzBytes(r, a.iv)
	nonce[0] |= 1
	return append(append([]byte{}, nonce...), a.seal(nonce, p, append(zzBE64(no), id...))...)
}

// decBlock: the specification of decrypting one stored block.
func (a *zzAead) decBlock(b []byte, no uint64, id []byte) ([]byte, bool) {
	if len(b) == 0 {
		return nil, true
	}
	if bytes.Equal(b, make([]byte, 4112+a.iv)) {
		return make([]byte, 4096), true
	}
	if len(b) < a.iv || bytes.Equal(b[:a.iv], make([]byte, a.iv)) {
		return nil, false
	}
	return a.open(b[:a.iv], b[a.iv:], append(zzBE64(no), id...))
}

func (a *zzAead) decBlocks(b []byte, first uint64, id []byte) ([]byte, bool) {
	var out []byte
	for i := uint64(0); len(b) > 0; i++ {
		n := 4112 + a.iv
		if n > len(b) {
			n = len(b)
		}
		p, ok := a.decBlock(b[:n], first+i, id)
		if !ok {
			return nil, false
		}
		out = append(out, p...)
		b = b[n:]
	}
	return out, true
}

type zzBoth struct {
	name string
	e    *contentenc.ContentEnc
	a    *zzAead
}

func zzBoths(r *rand.Rand) []zzBoth {
	var out []zzBoth
	for _, e := range zzEncs(r) {
		out = append(out, zzBoth{e.name, e.e, zzSpecAead(e.key, e.hk, e.name[:3] == "siv", e.ivLen)})
	}
	return out
}

func zzLens(r *rand.Rand, n int) []int {
	sp := []int{1, 2, 15, 16, 17, 31, 32, 33, 1000, 4095, 4096, 4096, 4096, 4096}
	out := make([]int, n)
	for i := range out {
		out[i] = sp[r.Intn(len(sp))]
	}
	return out
}

func zzNos(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return 1<<32 - uint64(r.Intn(4))
	case 2:
		return 1<<62 + uint64(r.Intn(3))<<56 + uint64(r.Intn(4))
	}
	return r.Uint64() >> uint(1+r.Intn(60))
}

// C01 at the level of block decryption: every byte string, right answer.
func TestVerifC01Blocks(t *testing.T) {
	r := zzRand(1)
	n := 0
	for _, b := range zzBoths(r) {
		cbs := 4112 + b.a.iv
		for i := 0; i < zzN(150); i++ {
			id := zzBytes(r, 16)
			first := zzNos(r)
			var c []byte
			for k := r.Intn(5); k >= 0; k-- {
				no := first + uint64(len(c)/cbs)
				switch r.Intn(9) {
				case 0:
					c = append(c, make([]byte, cbs)...)
				case 1:
					if r.Intn(2) == 0 { // zero nonce, valid otherwise
						z := make([]byte, b.a.iv)
						c = append(c, append(z, b.a.seal(z, zzBytes(r, 4096), append(zzBE64(no), id...))...)...)
						break
					}
					fallthrough
				default:
					c = append(c, b.a.encBlock(r, zzBytes(r, 4096), no, id)...)
				}
			}
			no := first + uint64(len(c)/cbs)
			switch r.Intn(8) { // last block
			case 0:
				c = append(c, make([]byte, r.Intn(cbs))...) // short zeros
			case 1, 2, 3:
				c = append(c, b.a.encBlock(r, zzBytes(r, 1+r.Intn(4095)), no, id)...)
			case 4:
				c = append(c, zzBytes(r, 1+r.Intn(50))...)
			}
			switch r.Intn(4) { // tamper
			case 0:
				c = c[:r.Intn(len(c)+1)]
			case 1:
				if len(c) > 0 {
					c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
				}
			}
			n++
			want, ok := b.a.decBlocks(c, first, id)
			keep := append([]byte{}, c...)
			var got []byte
			var err error
			if m := zzCatch(func() { got, err = b.e.DecryptBlocks(c, first, id) }); m != "" {
				zzFail(t, "%s: DecryptBlocks of %d bytes from block %d: %s", b.name, len(c), first, m)
			}
			if !bytes.Equal(c, keep) {
				zzFail(t, "%s: DecryptBlocks of %d bytes from block %d altered its input", b.name, len(c), first)
			}
			if ok != (err == nil) || ok && !bytes.Equal(got, want) {
				zzFail(t, "%s: DecryptBlocks of %d bytes from block %d: err=%v, %d bytes; want ok=%v, %d bytes (equal=%v)", b.name, len(c), first, err, len(got), ok, len(want), bytes.Equal(got, want))
			}
			one := c
			if len(one) > cbs {
				one = one[:cbs]
			}
			wp, wok := b.a.decBlock(one, first, id)
			gp, gerr := b.e.DecryptBlock(one, first, id)
			if wok != (gerr == nil) || wok && !bytes.Equal(gp, wp) || !wok && len(gp) != 0 {
				zzFail(t, "%s: DecryptBlock of %d bytes as block %d: err=%v, %d bytes; want ok=%v, %d bytes", b.name, len(one), first, gerr, len(gp), wok, len(wp))
			}
		}
	}
	zzAudit(t, "%d ciphertext strings", n)
}

func TestVerifC02(t *testing.T) {
	r := zzRand(2)
	n := 0
	for _, b := range zzBoths(r) {
		type kept struct {
			c, copy []byte
			what    string
		}
		var old []kept
		cnts := []int{0, 1, 2, 3, 5, 8, 31, 32, 33, 34, 35, 47, 63, 64, 65, 97}
		for i := 0; i < zzN(len(cnts)); i++ {
			cnt := cnts[i%len(cnts)]
			id, first := zzBytes(r, 16), zzNos(r)
			if r.Intn(6) == 0 {
				id = nil
			}
			full := r.Intn(2) == 0 // all blocks full but the last
			lens := zzLens(r, cnt)
			var ps [][]byte
			var all []byte
			for k, l := range lens {
				if full && k < cnt-1 {
					l = 4096
				}
				ps = append(ps, zzBytes(r, l))
				all = append(all, ps[k]...)
			}
			keep := append([]byte{}, all...)
			n++
			var c []byte
			if m := zzCatch(func() { c = b.e.EncryptBlocks(ps, first, id) }); m != "" {
				zzFail(t, "%s: EncryptBlocks of %d blocks from %d: %s", b.name, cnt, first, m)
			}
			if x := bytes.Join(ps, nil); !bytes.Equal(x, keep) {
				zzFail(t, "%s: EncryptBlocks of %d blocks altered its input", b.name, cnt)
			}
			what := fmt.Sprintf("%s: batch of %d blocks (lengths %v) from block %d", b.name, cnt, lens, first)
			old = append(old, kept{c, append([]byte{}, c...), what})
			rest := c
			for k, p := range ps {
				l := len(p) + b.a.iv + 16
				if len(rest) < l {
					zzFail(t, "%s: output is too short at block %d", what, k)
				}
				got, ok := b.a.decBlock(rest[:l], first+uint64(k), id)
				if !ok || !bytes.Equal(got, p) {
					zzFail(t, "%s: block %d does not decrypt (independent implementation, authenticated=%v)", what, k, ok)
				}
				got, err := b.e.DecryptBlock(rest[:l], first+uint64(k), id)
				if err != nil || !bytes.Equal(got, p) {
					zzFail(t, "%s: block %d does not decrypt back: %v", what, k, err)
				}
				rest = rest[l:]
			}
			if len(rest) != 0 {
				zzFail(t, "%s: %d extra bytes", what, len(rest))
			}
			if full || cnt < 2 {
				got, err := b.e.DecryptBlocks(c, first, id)
				if err != nil || !bytes.Equal(got, keep) {
					zzFail(t, "%s: does not decrypt as a whole: %v", what, err)
				}
			}
			// single blocks, more and less than a full block's worth
			p := zzBytes(r, []int{1, 7, 4095, 4096}[r.Intn(4)])
			var s []byte
			if m := zzCatch(func() { s = b.e.EncryptBlock(p, first, id) }); m != "" {
				zzFail(t, "%s: EncryptBlock of %d bytes: %s", b.name, len(p), m)
			}
			old = append(old, kept{s, append([]byte{}, s...), fmt.Sprintf("%s: block of %d bytes", b.name, len(p))})
			if len(s) != len(p)+b.a.iv+16 {
				zzFail(t, "%s: EncryptBlock of %d bytes gives %d", b.name, len(p), len(s))
			}
			if got, err := b.e.DecryptBlock(s, first, id); err != nil || !bytes.Equal(got, p) {
				zzFail(t, "%s: block of %d bytes does not decrypt back: %v", b.name, len(p), err)
			}
			if s := b.e.EncryptBlock(nil, first, id); len(s) != 0 {
				zzFail(t, "%s: an empty block encrypts to %d bytes", b.name, len(s))
			}
		}
		for _, k := range old {
			if !bytes.Equal(k.c, k.copy) {
				zzFail(t, "%s: ciphertext handed out was changed by a later call", k.what)
			}
		}
		// several callers at once
		var wg sync.WaitGroup
		errs := make(chan string, 8)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(seed int64) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < 12; i++ {
					id, cnt := zzBytes(r, 16), []int{1, 3, 32, 40}[r.Intn(4)]
					var ps [][]byte
					for k := 0; k < cnt; k++ {
						ps = append(ps, zzBytes(r, 4096))
					}
					c := b.e.EncryptBlocks(ps, 5, id)
					p, err := b.e.DecryptBlocks(c, 5, id)
					if err != nil || !bytes.Equal(p, bytes.Join(ps, nil)) {
						errs <- fmt.Sprintf("%s: concurrent batch of %d blocks does not decrypt back: %v", b.name, cnt, err)
						return
					}
				}
			}(r.Int63())
		}
		wg.Wait()
		select {
		case m := <-errs:
			zzFail(t, "%s", m)
		default:
		}
	}
	zzAudit(t, "%d batches", n)
}

func TestVerifC03(t *testing.T) {
	r := zzRand(3)
	n := 0
	for _, b := range zzBoths(r) {
		for i := 0; i < zzN(250); i++ {
			id, no := zzBytes(r, 16), zzNos(r)
			p := zzBytes(r, 1+r.Intn(60))
			// every single-bit and structured change of (number, id)
			id2, no2 := append([]byte{}, id...), no
			switch r.Intn(9) {
			case 0:
				id2[r.Intn(16)] ^= 1 << uint(r.Intn(8))
			case 1:
				no2 ^= 1 << uint(r.Intn(64))
			case 2: // byte reversed number
				var x [8]byte
				binary.BigEndian.PutUint64(x[:], no)
				no2 = binary.LittleEndian.Uint64(x[:])
			case 3:
				no2 = no & 0xffffffff
			case 4:
				no2 = no + 1 + uint64(r.Intn(3))
			case 5:
				id2 = nil
			case 6: // swap number and first half of the id
				id2 = append(zzBE64(no), id[8:]...)
				no2 = binary.BigEndian.Uint64(id[:8])
			case 7:
				copy(id2, id[8:])
				copy(id2[8:], id[:8])
			case 8:
				id2 = make([]byte, 16)
			}
			if no2 == no && bytes.Equal(id2, id) {
				continue
			}
			n++
			for _, enc := range []string{"EncryptBlock", "independent encryption"} {
				c := b.a.encBlock(r, p, no, id)
				if enc == "EncryptBlock" {
					c = b.e.EncryptBlock(p, no, id)
				}
				if got, err := b.e.DecryptBlock(c, no, id); err != nil || !bytes.Equal(got, p) {
					zzFail(t, "%s: block %#x of file %x (%s) is not accepted in its place: %v", b.name, no, id, enc, err)
				}
				if _, err := b.e.DecryptBlock(c, no2, id2); err == nil {
					zzFail(t, "%s: block %#x of file %x (%s) is accepted as block %#x of file %x", b.name, no, id, enc, no2, id2)
				}
				if _, err := b.e.DecryptBlocks(c, no2, id2); err == nil {
					zzFail(t, "%s: block %#x of file %x (%s) is accepted by DecryptBlocks as block %#x of file %x", b.name, no, id, enc, no2, id2)
				}
			}
		}
		// exchanged, repeated and dropped blocks of one file
		for i := 0; i < zzN(40); i++ {
			id, first := zzBytes(r, 16), zzNos(r)
			k := 2 + r.Intn(5)
			var bl [][]byte
			for j := 0; j < k; j++ {
				bl = append(bl, b.a.encBlock(r, zzBytes(r, 4096), first+uint64(j), id))
			}
			if _, err := b.e.DecryptBlocks(bytes.Join(bl, nil), first, id); err != nil {
				zzFail(t, "%s: %d valid blocks from %#x are rejected: %v", b.name, k, first, err)
			}
			x, y := r.Intn(k), r.Intn(k)
			if x == y {
				continue
			}
			n++
			bad := append([][]byte{}, bl...)
			what := ""
			switch r.Intn(3) {
			case 0:
				bad[x], bad[y] = bad[y], bad[x]
				what = "exchanged"
			case 1:
				bad[x] = bad[y]
				what = "replaced by"
			case 2:
				if x == k-1 {
					continue
				}
				bad = append(bad[:x:x], bad[x+1:]...)
				what = "dropped, not"
			}
			if _, err := b.e.DecryptBlocks(bytes.Join(bad, nil), first, id); err == nil {
				zzFail(t, "%s: %d blocks from %#x with block %d %s %d are accepted", b.name, k, first, x, what, y)
			}
			if _, err := b.e.DecryptBlocks(bytes.Join(bl, nil), first+1, id); err == nil {
				zzFail(t, "%s: %d blocks from %#x are accepted from %#x", b.name, k, first, first+1)
			}
		}
	}
	zzAudit(t, "%d moved blocks", n)
}

// zzSource: a random source whose every 8-byte window tells its position.
type zzSource struct {
	mu  sync.Mutex
	str cipher.Stream
	pos map[[8]byte]int
	all []byte
}

func zzNewSource(r *rand.Rand) *zzSource {
	b, _ := aes.NewCipher(zzBytes(r, 16))
	return &zzSource{str: cipher.NewCTR(b, zzBytes(r, 16)), pos: map[[8]byte]int{}}
}

func (s *zzSource) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		p[i] = 0
	}
	s.str.XORKeyStream(p, p)
	s.all = append(s.all, p...)
	from := len(s.all) - len(p) - 8
	if from < 0 {
		from = 0
	}
	for i := from; i+8 <= len(s.all); i++ {
		var w [8]byte
		copy(w[:], s.all[i:])
		s.pos[w] = i
	}
	return len(p), nil
}

// find returns where b (at least 8 bytes) lies in the source, or -1.
func (s *zzSource) find(b []byte) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	var w [8]byte
	copy(w[:], b)
	p, ok := s.pos[w]
	if !ok || p+len(b) > len(s.all) || !bytes.Equal(s.all[p:p+len(b)], b) {
		return -1
	}
	return p
}

func TestVerifC24(t *testing.T) {
	r := zzRand(24)
	src := zzNewSource(r)
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	var ccs []*cryptocore.CryptoCore
	for _, n := range []int{12, 16, 8, 31, 32, 100, 200, 300, 500, 511, 512} {
		ccs = append(ccs, cryptocore.New(zzBytes(r, 32), cryptocore.BackendGoGCM, n*8, true, false))
	}
	// use up what was prefetched before the source was replaced
	last := ccs[len(ccs)-1]
	for i := 0; i < 4; i++ {
		last.IVGenerator.Get()
	}
	var mu sync.Mutex
	used := map[int]string{}
	check := func(b []byte, want int, what string) string {
		if len(b) != want {
			return fmt.Sprintf("%s returned %d bytes", what, len(b))
		}
		if want < 8 {
			return ""
		}
		p := src.find(b)
		if p < 0 {
			return fmt.Sprintf("%s: bytes %x... did not all come from the random source", what, b[:8])
		}
		mu.Lock()
		defer mu.Unlock()
		for i := p; i < p+want; i++ {
			if u, ok := used[i]; ok {
				return fmt.Sprintf("%s: byte %d of the random stream was handed out before (%s)", what, i, u)
			}
			used[i] = what
		}
		return ""
	}
	n := 0
	for i := 0; i < zzN(4000); i++ {
		n++
		c := ccs[r.Intn(len(ccs))]
		if r.Intn(3) > 0 {
			c = ccs[r.Intn(5)]
		}
		if m := check(c.IVGenerator.Get(), c.IVLen, fmt.Sprintf("nonce %d of %d bytes", i, c.IVLen)); m != "" {
			zzFail(t, "%s", m)
		}
		if r.Intn(10) == 0 {
			k := []int{0, 1, 8, 16, 32, 64, 511, 512, 513, 4096}[r.Intn(10)]
			if m := check(cryptocore.RandBytes(k), k, fmt.Sprintf("RandBytes(%d)", k)); m != "" {
				zzFail(t, "%s", m)
			}
		}
	}
	// several callers
	var wg sync.WaitGroup
	errs := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int, seed int64) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < zzN(1500); i++ {
				c := ccs[r.Intn(len(ccs))]
				if m := check(c.IVGenerator.Get(), c.IVLen, fmt.Sprintf("caller %d, nonce of %d bytes", g, c.IVLen)); m != "" {
					errs <- m
					return
				}
			}
		}(g, r.Int63())
	}
	wg.Wait()
	select {
	case m := <-errs:
		zzFail(t, "%s", m)
	default:
	}
	// the nonces of encrypted blocks
	seen := map[string]int{}
	for _, b := range []*contentenc.ContentEnc{contentenc.New(ccs[1], 4096, false), contentenc.New(ccs[0], 4096, false)} {
		iv := int(b.CipherBS()) - 4096 - 16
		for _, cnt := range []int{1, 5, 32, 70} {
			var ps [][]byte
			for i := 0; i < cnt; i++ {
				ps = append(ps, zzBytes(r, 4096))
			}
			c := b.EncryptBlocks(ps, 0, zzBytes(r, 16))
			for i := 0; i < cnt; i++ {
				non := c[i*(4112+iv):][:iv]
				n++
				if m := check(non, iv, fmt.Sprintf("nonce of block %d of %d", i, cnt)); m != "" {
					zzFail(t, "%s", m)
				}
				if j, ok := seen[string(non)]; ok {
					zzFail(t, "blocks %d and %d were encrypted under the same nonce", j, n)
				}
				seen[string(non)] = n
			}
		}
	}
	// oversized requests: full length or a refusal, never short
	big := cryptocore.New(zzBytes(r, 32), cryptocore.BackendGoGCM, 600*8, true, false)
	var b []byte
	if m := zzCatch(func() { b = big.IVGenerator.Get() }); m == "" {
		if x := check(b, 600, "nonce of 600 bytes"); x != "" {
			zzFail(t, "%s", x)
		}
	}
	zzAudit(t, "%d requests", n)
}

func TestVerifC25(t *testing.T) {
	r := zzRand(25)
	n := 0
	for i := 0; i < zzN(60); i++ {
		for _, hk := range []bool{true, false} {
			for _, iv := range []int{12, 16, 20} {
				for _, sv := range []bool{false, true} {
					if sv && iv != 16 {
						continue
					}
					n++
					key := zzBytes(r, 32)
					keep := append([]byte{}, key...)
					back := cryptocore.BackendGoGCM
					if sv {
						back = cryptocore.BackendAESSIV
					}
					what := fmt.Sprintf("hkdf=%v iv=%d siv=%v", hk, iv, sv)
					var cc *cryptocore.CryptoCore
					if m := zzCatch(func() { cc = cryptocore.New(key, back, iv*8, hk, false) }); m != "" {
						zzFail(t, "%s: %s", what, m)
					}
					if !bytes.Equal(key, keep) {
						zzFail(t, "%s: the caller's key was modified", what)
					}
					if cc.IVLen != iv || cc.AEADCipher.NonceSize() != iv || len(cc.IVGenerator.Get()) != iv {
						zzFail(t, "%s: nonce lengths %d, %d", what, cc.IVLen, cc.AEADCipher.NonceSize())
					}
					// later use of the key's memory must not matter
					for j := range key {
						key[j] = 0
					}
					a := zzSpecAead(keep, hk, sv, iv)
					p, ad, non := zzBytes(r, 1+r.Intn(100)), zzBytes(r, 24), zzBytes(r, iv)
					if got := cc.AEADCipher.Seal(nil, non, p, ad); !bytes.Equal(got, a.seal(non, p, ad)) {
						zzFail(t, "%s: content cipher does not use the key of the volume format", what)
					}
					got, err := cc.AEADCipher.Open(nil, non, a.seal(non, p, ad), ad)
					if err != nil || !bytes.Equal(got, p) {
						zzFail(t, "%s: content cipher does not open a valid message: %v", what, err)
					}
					pre := zzBytes(r, 5)
					if got := cc.AEADCipher.Seal(append([]byte{}, pre...), non, p, ad); !bytes.Equal(got, append(append([]byte{}, pre...), a.seal(non, p, ad)...)) {
						zzFail(t, "%s: Seal does not append", what)
					}
					ek := keep
					if hk {
						ek = zzHKDF(keep, "EME filename encryption", 32)
					}
					eb, _ := aes.NewCipher(ek)
					x, tw := zzBytes(r, 32), zzBytes(r, 16)
					if !bytes.Equal(cc.EMECipher.Encrypt(tw, x), eme.New(eb).Encrypt(tw, x)) {
						zzFail(t, "%s: name cipher does not use the key of the volume format", what)
					}
				}
			}
		}
	}
	for l := 0; l < 70; l++ {
		if l == 32 {
			continue
		}
		for _, back := range []cryptocore.AEADTypeEnum{cryptocore.BackendGoGCM, cryptocore.BackendAESSIV} {
			for _, hk := range []bool{true, false} {
				if m := zzCatch(func() { cryptocore.New(make([]byte, l), back, 128, hk, false) }); m == "" {
					zzFail(t, "a key of %d bytes is accepted (backend %d, hkdf %v)", l, back, hk)
				}
			}
		}
	}
	// a wiped SIV cipher must refuse to work
	cc := cryptocore.New(zzBytes(r, 32), cryptocore.BackendAESSIV, 128, true, false)
	a := cc.AEADCipher
	cc.Wipe()
	if m := zzCatch(func() { a.Seal(nil, make([]byte, 16), []byte("x"), nil) }); m == "" {
		zzFail(t, "a wiped SIV cipher still encrypts")
	}
	if cc.AEADCipher != nil || cc.EMECipher != nil {
		zzFail(t, "Wipe leaves the ciphers in place")
	}
	zzAudit(t, "%d key set-ups", n)
}
