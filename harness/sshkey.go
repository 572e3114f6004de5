package config_test

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"golang.org/x/crypto/ssh"

	"github.com/flawedmatrix/gocryptsftp/config"
)

type zzPrompt struct {
	pw  string
	err error
}

func TestVerifC27(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)*1000003 + 27))
	n := 1
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 8
	}
	fail := func(f string, a ...interface{}) {
		t.Helper()
		t.Fatalf("VERIF-FAIL "+f, a...)
	}
	dir, err := ioutil.TempDir("", "c27")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "id")
	bad := errors.New("no terminal")
	cases, prompts, keys := 0, 0, 0
	try := func(what string, data []byte, missing bool, ps []zzPrompt) {
		t.Helper()
		cases++
		os.Remove(fn)
		if !missing {
			ioutil.WriteFile(fn, data, 0600)
		}
		fake := config.SetTestPWReader()
		asked := 0
		fake.ReadPasswordStub = func(string) ([]byte, error) {
			asked++
			if asked > len(ps) {
				return nil, bad
			}
			return []byte(ps[asked-1].pw), ps[asked-1].err
		}
		c := &config.Config{Remote: config.RemoteConfig{PrivateKeyPath: fn}}
		var s ssh.Signer
		var got error
		func() {
			defer func() {
				if x := recover(); x != nil {
					fail("%s: crashed: %v (key file %q)", what, x, data)
				}
			}()
			s, got = c.LoadSSHKey()
		}()
		prompts += asked
		desc := fmt.Sprintf("%s, prompts answered %+v: %d prompts, error %v (key file %q)", what, ps, asked, got, data)
		block, _ := pem.Decode(data)
		enc := !missing && block != nil && x509.IsEncryptedPEMBlock(block)
		if asked > 3 {
			fail("more than three prompts: %s", desc)
		}
		if !enc && asked > 0 {
			fail("prompted for a key that is not encrypted: %s", desc)
		}
		ask := func(i int) zzPrompt {
			if i < len(ps) {
				return ps[i]
			}
			return zzPrompt{"", bad}
		}
		for i := 0; i+1 < asked; i++ {
			if p := ask(i); p.err != nil {
				fail("prompted again after a failed prompt: %s", desc)
			} else if _, err := ssh.ParsePrivateKeyWithPassphrase(data, []byte(p.pw)); err != x509.IncorrectPasswordError {
				fail("prompted again although the passphrase was not incorrect (%v): %s", err, desc)
			}
		}
		if (got == nil) != (s != nil) {
			fail("key %v: %s", s, desc)
		}
		if got != nil {
			return
		}
		keys++
		var want ssh.Signer
		var werr error
		if missing {
			werr = errors.New("missing file")
		} else if enc {
			if asked == 0 || ask(asked-1).err != nil {
				fail("a key without a passphrase: %s", desc)
			}
			want, werr = ssh.ParsePrivateKeyWithPassphrase(data, []byte(ask(asked-1).pw))
		} else {
			want, werr = ssh.ParsePrivateKey(data)
		}
		if werr != nil {
			fail("a key although the file does not parse (%v): %s", werr, desc)
		}
		if !bytes.Equal(want.PublicKey().Marshal(), s.PublicKey().Marshal()) {
			fail("another key: %s", desc)
		}
	}
	rk, err := rsa.GenerateKey(crand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	ek, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	eb, _ := x509.MarshalECPrivateKey(ek)
	kinds := []*pem.Block{{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(rk)}, {Type: "EC PRIVATE KEY", Bytes: eb}}
	for _, k := range kinds {
		plain := pem.EncodeToMemory(k)
		try("plain key", plain, false, nil)
		try("plain key with text around", append(append([]byte("x\n\n"), plain...), []byte("trailer\n")...), false, []zzPrompt{{"pw", nil}})
		try("missing file", nil, true, []zzPrompt{{"pw", nil}})
		for _, alg := range []x509.PEMCipher{x509.PEMCipherAES256, x509.PEMCipherDES, x509.PEMCipherAES128} {
			b, err := x509.EncryptPEMBlock(crand.Reader, k.Type, k.Bytes, []byte("right"), alg)
			if err != nil {
				t.Fatal(err)
			}
			enc := pem.EncodeToMemory(b)
			// every sequence of four outcomes
			outcomes := []zzPrompt{{"right", nil}, {"wrong", nil}, {"", nil}, {"right", bad}, {"righT", nil}}
			for i := 0; i < 625; i++ {
				if alg != x509.PEMCipherAES256 && i%7 != 0 {
					continue
				}
				try("encrypted key", enc, false, []zzPrompt{outcomes[i%5], outcomes[i/5%5], outcomes[i/25%5], outcomes[i/125]})
			}
			try("encrypted key, no prompt answered", enc, false, nil)
			// damaged files
			for i := 0; i < 40*n; i++ {
				d := append([]byte{}, enc...)
				switch r.Intn(4) {
				case 0:
					d = d[:r.Intn(len(d))]
				case 1:
					d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
				case 2:
					d = bytes.Replace(d, []byte("DEK-Info"), []byte([]string{"DEK-Inf", "Dek-Info", "X"}[r.Intn(3)]), 1)
				case 3:
					j := r.Intn(len(d))
					d = append(append(append([]byte{}, d[:j]...), byte(r.Intn(256))), d[j:]...)
				}
				try("damaged encrypted key", d, false, []zzPrompt{{"right", nil}, {"wrong", nil}, {"right", nil}, {"right", nil}})
			}
		}
		// an encrypted block whose content is not a key
		b, _ := x509.EncryptPEMBlock(crand.Reader, k.Type, []byte("not a key at all"), []byte("right"), x509.PEMCipherAES256)
		try("encrypted nonsense", pem.EncodeToMemory(b), false, []zzPrompt{{"right", nil}, {"right", nil}, {"right", nil}, {"right", nil}})
		b.Type = "CERTIFICATE"
		try("encrypted certificate", pem.EncodeToMemory(b), false, []zzPrompt{{"right", nil}, {"wrong", nil}, {"right", nil}, {"right", nil}})
		for i := 0; i < 30*n; i++ {
			d := append([]byte{}, plain...)
			if r.Intn(2) == 0 {
				d = d[:r.Intn(len(d))]
			} else {
				d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
			}
			try("damaged plain key", d, false, []zzPrompt{{"pw", nil}})
		}
	}
	for i := 0; i < 60*n; i++ {
		d := make([]byte, r.Intn(300))
		r.Read(d)
		try("random bytes", d, false, []zzPrompt{{"pw", nil}})
	}
	try("empty file", []byte{}, false, []zzPrompt{{"pw", nil}})
	try("empty block", []byte("-----BEGIN X-----\n-----END X-----\n"), false, nil)
	t.Logf("AUDIT %d key files and prompt histories: %d prompts, %d keys returned", cases, prompts, keys)
}
