# Keys and randomness (gocrypt/cryptocore, gocrypt/siv_aead)

ghost hkread(ref) int
uf blkkey(int) seq
uf aeadkey(int) seq
uf emekey(int) seq
uf hkhash(int) seq
uf hksecret(int) seq
uf hksalt(int) seq
uf hkinfo(int) seq
uf hkdfout(seq, seq, seq, seq, int) seq
axiom forall h: seq, k: seq, s: seq, i: seq, n: int {hkdfout(h, k, s, i, n)} :: n >= 0 ==> len(hkdfout(h, k, s, i, n)) == n
uf sha512f(seq) seq
uf israndom(seq) bool

# gocryptfs v1.3 key derivation: HKDF-SHA256, no salt
define derive(key, label, n) = hkdfout("crypto/sha256.New", key, "", label, n)

func cryptocore.New | key t bits hk force -> r
  opt home C25,C22,C08
  cases hk : true, false
  cases t : 4, 5
  opt secrets key hkdfout sha512f
  opt wipetags C25
  opt keeps if t == 5 then base(as(r.AEADCipher, "*siv_aead.sivAead").key) else 0
  modifies nothing
  panics_if[C25,C22,C07] len(key) != 32 || bits < 8 || (t == 5 && bits / 8 != 16)
  ensures[C25] "only 32-byte keys" len(key) == 32
  ensures "a new core of that kind" r != nil && fresh(r) && r.AEADBackend == t && r.EMECipher != nil && r.AEADCipher != nil && r.IVGenerator != nil
  ensures "nonces of the requested length" r.IVLen == bits / 8 && r.IVGenerator.nonceLen == bits / 8
  ensures "the content cipher takes nonces of that length" t == 4 ==> noncesize(pay(r.AEADCipher)) == bits / 8
  ensures[C25,C08,C22] "key of the name cipher" emekey(r.EMECipher) == (if hk then derive(bytes(key), "EME filename encryption", 32) else bytes(key))
  ensures[C25,C22] "key of the GCM content cipher" t == 4 ==> aeadkey(pay(r.AEADCipher)) == (if hk then derive(bytes(key), "AES-GCM file content encryption", 32) else bytes(key))
  ensures[C25] "key of the SIV content cipher" t == 5 ==> is(r.AEADCipher, "*siv_aead.sivAead")
    && bytes(as(r.AEADCipher, "*siv_aead.sivAead").key) == (if hk then derive(bytes(key), "AES-SIV file content encryption", 64) else sha512f(bytes(key)))

uf sivenc(seq, seq, seq, seq) seq
uf sivdec(seq, seq, seq, seq) seq
uf sivok(seq, seq, seq, seq) bool
axiom forall k: seq, p: seq, a: seq, n: seq {sivenc(k, p, a, n)} :: len(sivenc(k, p, a, n)) == len(p) + 16 && sivok(k, sivenc(k, p, a, n), a, n) && sivdec(k, sivenc(k, p, a, n), a, n) == p
axiom forall k: seq, p: seq, a: seq, n: seq {sivok(k, p, a, n)} :: sivok(k, p, a, n) ==> len(p) >= 16 && len(sivdec(k, p, a, n)) == len(p) - 16

func (*siv_aead.sivAead).Seal | s dst nonce p ad -> r
  requires s != nil && (len(s.key) == 0 || len(s.key) == 64)
  requires base(dst) != base(s.key) && (cap(dst) == len(dst) || (base(dst) != base(p) && base(dst) != base(ad) && base(dst) != base(nonce)))
  modifies backing(dst)
  panics_if[C25,C07] len(nonce) != 16 || len(s.key) == 0
  ensures[C25] "appends the SIV ciphertext under the key, bound to data and nonce" bytes(r) == old(bytes(dst)) + sivenc(old(bytes(s.key)), old(bytes(p)), old(bytes(ad)), old(bytes(nonce)))
  ensures[C25] "refuses a wiped key" len(s.key) == 64

func (*siv_aead.sivAead).Open | s dst nonce ct ad -> r err
  requires s != nil && (len(s.key) == 0 || len(s.key) == 64)
  requires base(dst) != base(s.key) && (cap(dst) == len(dst) || (base(dst) != base(ct) && base(dst) != base(ad) && base(dst) != base(nonce)))
  modifies backing(dst)
  panics_if[C25,C07] len(nonce) != 16 || len(s.key) == 0
  ensures[C25] "opens exactly what authenticates" (err == nil) == sivok(old(bytes(s.key)), old(bytes(ct)), old(bytes(ad)), old(bytes(nonce)))
  ensures[C25] "appends the plaintext" err == nil ==> bytes(r) == old(bytes(dst)) + sivdec(old(bytes(s.key)), old(bytes(ct)), old(bytes(ad)), old(bytes(nonce)))

func (*siv_aead.sivAead).Wipe | s
  requires s != nil
  let k = s.key
  modifies s.key, bytes(s.key)
  nopanic[C25]
  ensures[C25] "key overwritten" bytes(k) == zeros(len(k)) && len(s.key) == 0

func (*siv_aead.sivAead).NonceSize | s -> r
  modifies nothing
  ensures[C25] "16-byte nonces" r == 16

func cryptocore.RandBytes | n -> r
  requires 0 <= n && n < 2^40
  modifies nothing
  ensures[C24,C06,C23,C02] "exactly n bytes" len(r) == n
  ensures[C24,C23] "all of them random" israndom(bytes(r))
  ensures[C24,C06,C23] "own memory" fresh(r)

# The prefetched stream: each refill is 512 new random bytes, sent once.
ghost given(ref) bool
ghost refilled(ref) seq
define unread(b) = sub(bytes(b.buf), b.off, len(b.buf) - b.off)
guard[C24] cryptocore.randPrefetcherT.Mutex : buf ; inv 0 <= s.buf.off && s.buf.off <= len(s.buf.buf)

define prefetch() = ptr(global("cryptocore.randPrefetcher"), "*cryptocore.randPrefetcherT")
# n bytes taken out of the prefetched stream (u: unread bytes before; m: last refill; v: unread bytes after)
define taken(s, u, m, v) = (s == sub(u, 0, len(s)) && v == sub(u, len(s), len(u) - len(s)))
    || (len(m) == 512 && israndom(m) && s == sub(m, 0, len(s)) && v == sub(m, len(s), 512 - len(s)))

func (*cryptocore.randPrefetcherT).read | r want -> out
  requires r != nil && 0 <= want && want < 2^40
  opt atomic
  let u = unread(r.buf)
  let ch = r.refill
  requires @held(addr(r.Mutex)) == 0
  assume 0 <= r.buf.off && r.buf.off <= len(r.buf.buf)
  opt private base(r.buf.buf)
  modifies r.buf, @refilled(r.refill)
  ensures[C24,C02] "exactly the number asked for" len(out) == want
  ensures[C24,C02] "own memory" fresh(out)
  panics_if[C02,C24] want > 512
  ensures[C24] "bytes are taken out of the stream, or out of a new refill, and the rest stays" taken(bytes(out), u, @refilled(ch), unread(r.buf))

func (*cryptocore.randPrefetcherT).refillWorker | r
  requires r != nil
  modifies anything
  opt noreturn

property C24 (*cryptocore.randPrefetcherT).refillWorker

func (*cryptocore.nonceGenerator).Get | n -> r
  requires n != nil && 0 <= n.nonceLen && n.nonceLen < 2^40
  let p = prefetch()
  let u = unread(prefetch().buf)
  requires @held(addr(prefetch().Mutex)) == 0
  modifies prefetch().buf, @refilled(prefetch().refill)
  panics_if[C02,C24] n.nonceLen > 512
  ensures[C24,C02] "nonce of the full length" len(r) == n.nonceLen
  ensures[C24,C02] "own memory" fresh(r)
  ensures[C24] "taken out of the prefetched stream" taken(bytes(r), u, @refilled(p.refill), unread(p.buf))
