# Content encryption (gocrypt/contentenc/content.go)

# The AEAD of a CryptoCore: identified by its object.
uf noncesize(int) int
uf aseal(int, seq, seq, seq) seq
uf aopen(int, seq, seq, seq) seq
uf aopenok(int, seq, seq, seq) bool
axiom forall a: int, n: seq, s: seq, d: seq {aopenok(a, n, s, d)} :: aopenok(a, n, s, d) ==> len(s) >= 16 && len(aopen(a, n, s, d)) == len(s) - 16
axiom forall a: int, n: seq, s: seq, d: seq {aseal(a, n, s, d)} :: len(aseal(a, n, s, d)) == len(s) + 16 && aopenok(a, n, aseal(a, n, s, d), d) && aopen(a, n, aseal(a, n, s, d), d) == s

define adata(no, id) = be64(no) + id
define wfcc(cc) = cc != nil && (cc.IVLen == 12 || cc.IVLen == 16) && cc.AEADCipher != nil && noncesize(pay(cc.AEADCipher)) == cc.IVLen
define wf(be) = be != nil && wfcc(be.cryptoCore) && be.plainBS == 4096 && be.cipherBS == 4096 + be.cryptoCore.IVLen + 16
    && bytes(be.allZeroBlock) == zeros(be.cipherBS) && bytes(be.allZeroNonce) == zeros(be.cryptoCore.IVLen) && !be.forceDecode
    && be.pBlockPool.sliceLen == 4096 && be.cBlockPool.sliceLen == be.cipherBS && be.PReqPool.sliceLen == 135168

define aeadof(be) = pay(be.cryptoCore.AEADCipher)
# what decrypting one stored block has to answer (a: AEAD, iv: nonce length)
define okb(a, iv, s, no, id) = len(s) == 0 || s == zeros(4112 + iv)
    || (len(s) >= iv && sub(s, 0, iv) != zeros(iv) && aopenok(a, sub(s, 0, iv), sub(s, iv, len(s) - iv), adata(no, id)))
define pb(a, iv, s, no, id) = if len(s) == 0 then s else if s == zeros(4112 + iv) then zeros(4096) else
    aopen(a, sub(s, 0, iv), sub(s, iv, len(s) - iv), adata(no, id))
define okblk(be, s, no, id) = okb(aeadof(be), be.cryptoCore.IVLen, s, no, id)
define pblk(be, s, no, id) = pb(aeadof(be), be.cryptoCore.IVLen, s, no, id)

# a stored byte string as blocks of cbs bytes, the last one possibly short
uf blkat(seq, int, int) seq
axiom forall s: seq, b: int, j: int {blkat(s, b, j)} :: blkat(s, b, j) == sub(s, j * b, min(b, len(s) - j * b))
# blocks 0..k-1 of s are valid as blocks first, first+1, ... of file id
define okall(a, iv, s, first, id, k) = forall j: int {blkat(s, 4112 + iv, j)} :: 0 <= j && j < k ==> okb(a, iv, blkat(s, 4112 + iv, j), first + j, id)
# the concatenation of their plaintexts
uf plainp(int, int, seq, int, seq, int) seq
axiom forall a: int, iv: int, s: seq, f: int, id: seq {plainp(a, iv, s, f, id, 0)} :: plainp(a, iv, s, f, id, 0) == ""
axiom forall a: int, iv: int, b: int, s: seq, f: int, id: seq, k: int {plainp(a, iv, s, f, id, k), blkat(s, b, k)} :: 0 <= k && b == 4112 + iv ==>
    plainp(a, iv, s, f, id, k + 1) == plainp(a, iv, s, f, id, k) + pb(a, iv, blkat(s, b, k), f + k, id)

func contentenc.concatAD | no id -> r
  modifies nothing
  panics_if[C01,C03,C07] id != nil && len(id) != 16
  ensures[C01,C02,C03,C24,C22] "block number, big endian, then file ID" bytes(r) == adata(no, bytes(id))
  ensures[C01,C02,C03,C24,C22] fresh(r)

func (*contentenc.ContentEnc).DecryptBlock | be c no id -> r err
  requires wf(be)
  requires id == nil || len(id) == 16
  cases be.cryptoCore.IVLen : 16, 12
  modifies nothing
  nopanic[C07,C01]
  ensures[C01,C03,C02,C22] "succeeds exactly if the block authenticates under its number and file ID" (err == nil) == okblk(be, bytes(c), no, bytes(id))
  ensures[C01,C03,C02,C22] "the authenticated plaintext" err == nil ==> bytes(r) == pblk(be, bytes(c), no, bytes(id))
  ensures[C01] "no data on failure" err != nil ==> len(r) == 0
  ensures[C01,C03,C07,C22] "pool-sized buffer" err == nil && len(c) > 0 && len(c) <= be.cipherBS ==> fresh(r) && cap(r) == 4096 && !@released(base(r))

func (*contentenc.ContentEnc).DecryptBlocks | be c first id -> r err
  requires wf(be)
  requires id == nil || len(id) == 16
  let a = aeadof(be)
  let iv = be.cryptoCore.IVLen
  let cbs = 4112 + be.cryptoCore.IVLen
  let s = bytes(c)
  let d = bytes(id)
  requires first + nblk(len(c), be.cipherBS) < 2^64
  cases be.cryptoCore.IVLen : 16, 12
  modifies nothing
  nopanic[C07,C01]
  terminates[C07]
  use blkat(s, cbs, ?no:uint64 - first)
  use plainp(a, iv, s, first, d, ?no:uint64 - first)
  hint first <= ?no:uint64
  hint ?o == min((?no:uint64 - first) * cbs, len(c))
  hint (?no:uint64 - first - 1) * cbs < len(c)
  hint okall(a, iv, s, first, d, ?no:uint64 - first)
  hint let w = ?w:*bytes.Buffer; bytes(w.buf) == plainp(a, iv, s, first, d, ?no:uint64 - first)
  hint let w = ?w:*bytes.Buffer; len(w.buf) + (?no:uint64 - first) * (iv + 16) == ?o
  hint let w = ?w:*bytes.Buffer; cap(w.buf) >= 135168 && !@released(base(w.buf))
  hint let q = ?q:@[]byte; base(q) == base(c) && off(q) == off(c) + min((?no:uint64 - first) * cbs, len(c)) && len(q) == len(c) - min((?no:uint64 - first) * cbs, len(c))
  hint let q = ?q:@[]byte; bytes(q) == plainp(a, iv, s, first, d, ?no:uint64 - first)
  hint let q = ?q:@[]byte; len(q) + (?no:uint64 - first) * (iv + 16) == min((?no:uint64 - first) * cbs, len(c))
  hint let q = ?q:@[]byte; cap(q) >= 135168 && !@released(base(q)) && fresh(q)
  ensures[C01,C03] "succeeds exactly if every block authenticates under its own number" (err == nil) == okall(a, iv, s, first, d, nblk(len(c), cbs))
  ensures[C01,C03] "plaintexts in order" err == nil ==> bytes(r) == plainp(a, iv, s, first, d, nblk(len(c), cbs))
  ensures[C01,C03] "plaintext length" err == nil ==> len(r) == len(c) - nblk(len(c), cbs) * (iv + 16)
  ensures[C01,C03,C07] "request-pool buffer" err == nil ==> fresh(r) && cap(r) >= 135168 && !@released(base(r))

# ---- whole files (filetree/decrypt.go) ----

# a stored file: nothing behind the header, or a valid header and valid blocks
define body(s) = sub(s, 18, len(s) - 18)
define fid(s) = sub(s, 2, 16)
define okfile(a, iv, s) = len(s) <= 18 || (okhdr(sub(s, 0, 18)) && okall(a, iv, body(s), 0, fid(s), nblk(len(s) - 18, 4112 + iv)))
define plainfile(a, iv, s) = if len(s) <= 18 then "" else plainp(a, iv, body(s), 0, fid(s), nblk(len(s) - 18, 4112 + iv))

func (*filetree.FileTree).readFileID | f b -> id err
  modifies nothing
  nopanic[C07,C01]
  ensures[C01,C03,C07] "nothing behind the header" len(b) <= 18 ==> err == extglobal("io.EOF")
  ensures[C01,C03,C07] "a valid header's ID" len(b) > 18 ==> (err == nil) == okhdr(sub(bytes(b), 0, 18)) && err != extglobal("io.EOF")
  ensures[C01,C03,C07] "ID of the header" err == nil ==> bytes(id) == fid(bytes(b)) && len(id) == 16

ghost k_df_in(int) seq
ghost k_df_err(int) bool
func (*filetree.FileTree).decryptFile | f b -> r err
  requires f != nil && wf(f.cEnc)
  requires len(b) < 2^48
  let a = aeadof(f.cEnc)
  let iv = f.cEnc.cryptoCore.IVLen
  let s = bytes(b)
  cases f.cEnc.cryptoCore.IVLen : 16, 12
  modifies nothing
  opt home C01,C07
  set @k_df_in(0) == s
  set @k_df_err(0) == (err != nil)
  nopanic[C07,C01]
  ensures[C01] "succeeds exactly for files whose header and every block are valid" (err == nil) == okfile(a, iv, s)
  ensures[C01] "exactly the authenticated plaintext" err == nil ==> bytes(r) == plainfile(a, iv, s)
  ensures[C01] "no data on failure" err != nil ==> len(r) == 0

# ---- encryption ----

define isenc(a, iv, s, p, no, id) = if len(p) == 0 then len(s) == 0 else
    len(s) == len(p) + iv + 16 && s == sub(s, 0, iv) + aseal(a, sub(s, 0, iv), p, adata(no, id))

lemma[C02] "an encrypted block decrypts to its plaintext (16-byte IV)" forall a: int, s: seq, p: seq, no: int, id: seq ::
    isenc(a, 16, s, p, no, id) && len(p) > 0 && sub(s, 0, 16) != zeros(16) ==> okb(a, 16, s, no, id) && pb(a, 16, s, no, id) == p
lemma[C02] "an encrypted block decrypts to its plaintext (12-byte IV)" forall a: int, s: seq, p: seq, no: int, id: seq ::
    isenc(a, 12, s, p, no, id) && len(p) > 0 && sub(s, 0, 12) != zeros(12) ==> okb(a, 12, s, no, id) && pb(a, 12, s, no, id) == p

func contentenc.New | cc bs force -> r
  requires wfcc(cc) && bs == 4096 && !force
  modifies nothing
  nopanic[C01,C02,C07]
  ensures "a well-formed content cipher" wf(r) && fresh(r) && r.cryptoCore == cc

func (*contentenc.ContentEnc).doEncryptBlock | be p no id nonce -> r
  requires wf(be)
  requires id == nil || len(id) == 16
  requires len(p) <= 4096
  cases be.cryptoCore.IVLen : 16, 12
  modifies nothing
  panics_if[C02] len(p) > 0 && len(nonce) != be.cryptoCore.IVLen
  ensures[C02,C03,C24] "nonce, ciphertext, tag" len(p) > 0 ==> bytes(r) == bytes(nonce) + aseal(aeadof(be), bytes(nonce), bytes(p), adata(no, bytes(id)))
  ensures[C02,C03,C24] "length" len(r) == (if len(p) == 0 then 0 else len(p) + be.cryptoCore.IVLen + 16)
  ensures[C02] "own pool-sized memory" len(p) > 0 ==> fresh(r) && cap(r) == be.cipherBS && !@released(base(r))

func (*contentenc.ContentEnc).EncryptBlock | be p no id -> r
  requires wf(be) && be.cryptoCore.IVGenerator != nil && be.cryptoCore.IVGenerator.nonceLen == be.cryptoCore.IVLen
  requires id == nil || len(id) == 16
  requires len(p) <= 4096
  requires @held(addr(prefetch().Mutex)) == 0
  let rp = prefetch()
  let u = unread(prefetch().buf)
  cases be.cryptoCore.IVLen : 16, 12
  modifies prefetch().buf, @refilled(prefetch().refill)
  nopanic[C02]
  ensures[C02,C03] "nonce, ciphertext, tag" isenc(aeadof(be), be.cryptoCore.IVLen, bytes(r), bytes(p), no, bytes(id))
  ensures[C02] "own pool-sized memory" len(p) > 0 ==> fresh(r) && cap(r) == be.cipherBS && !@released(base(r))
  ensures[C24] "a new nonce out of the random stream" len(p) > 0 ==> taken(sub(bytes(r), 0, be.cryptoCore.IVLen), u, @refilled(rp.refill), unread(rp.buf))

# isenc, by name
uf encd(int, int, seq, seq, int, seq) bool
axiom forall a: int, iv: int, s: seq, p: seq, no: int, id: seq {encd(a, iv, s, p, no, id)} :: encd(a, iv, s, p, no, id) == isenc(a, iv, s, p, no, id)
# a batch: out[i] is the encryption of in[i] as block first+i
define ivready(be) = be.cryptoCore.IVGenerator != nil && be.cryptoCore.IVGenerator.nonceLen == be.cryptoCore.IVLen
func (*contentenc.ContentEnc).doEncryptBlocks | be in out first id
  requires wf(be) && ivready(be)
  requires id == nil || len(id) == 16
  requires len(in) <= len(out) && base(in) != base(out)
  requires first + len(in) < 2^64
  requires forall i: int {len(in[i])} :: 0 <= i && i < len(in) ==> 0 < len(in[i]) && len(in[i]) <= 4096
  requires @held(addr(prefetch().Mutex)) == 0
  let a = aeadof(be)
  let iv = be.cryptoCore.IVLen
  let d = bytes(id)
  cases be.cryptoCore.IVLen : 16, 12
  modifies elems(out), prefetch().buf, @refilled(prefetch().refill)
  nopanic[C02]
  hint forall j: int {base(out[j])} :: 0 <= j && j < ?i ==> encd(a, iv, bytes(out[j]), bytes(in[j]), first + j, d)
  hint forall j: int {base(out[j])} :: 0 <= j && j <= ?i ==> encd(a, iv, bytes(out[j]), bytes(in[j]), first + j, d)
  hint forall j: int {base(out[j])} :: 0 <= j && j < ?i ==> fresh(out[j]) && live(base(out[j])) && cap(out[j]) == 4112 + iv && !@released(base(out[j]))
  hint forall j: int {base(out[j])} :: 0 <= j && j <= ?i ==> fresh(out[j]) && live(base(out[j])) && cap(out[j]) == 4112 + iv && !@released(base(out[j]))
  hint forall j: int, k: int {base(out[j]), base(out[k])} :: 0 <= j && j < k && k < ?i ==> base(out[j]) != base(out[k]) && live(base(out[k])) && live(base(out[j]))
  hint forall j: int, k: int {base(out[j]), base(out[k])} :: 0 <= j && j < k && k <= ?i ==> base(out[j]) != base(out[k]) && live(base(out[k])) && live(base(out[j]))
  ensures[C02] "in memory of its own" forall j: int, k: int {base(out[j]), base(out[k])} :: 0 <= j && j < k && k < len(in) ==> base(out[j]) != base(out[k])
  ensures[C02] "each block encrypted under its own number" forall j: int {base(out[j])} :: 0 <= j && j < len(in) ==> encd(a, iv, bytes(out[j]), bytes(in[j]), first + j, d)
  ensures[C02] "own pool-sized memory" forall j: int {base(out[j])} :: 0 <= j && j < len(in) ==> fresh(out[j]) && live(base(out[j])) && cap(out[j]) == 4112 + iv && !@released(base(out[j]))
