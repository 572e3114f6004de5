# Offsets and sizes (gocrypt/contentenc/offsets.go)

# a well-formed ContentEnc: block sizes as built by New
define wfsz(be) = be != nil && be.plainBS == 4096 && (be.cipherBS == 4128 || be.cipherBS == 4124)

# number of started blocks of size b in n bytes
define nblk(n, b) = (n + b - 1) / b

# plaintext size of a stored file of s bytes (cipher block size cbs, plain block size bs)
define psize(s, bs, cbs) = if s <= 18 then 0 else
    (if 18 + (cbs - bs) * nblk(s - 18, cbs) > s then 0 else s - 18 - (cbs - bs) * nblk(s - 18, cbs))
# stored size of a file of n plaintext bytes
define csize(n, bs, cbs) = if n == 0 then 0 else n + 18 + (cbs - bs) * nblk(n, bs)

lemma[C04] "stored size converts back (16-byte IV)" forall n: int :: 0 <= n ==> psize(csize(n, 4096, 4128), 4096, 4128) == n
lemma[C04] "stored size converts back (12-byte IV)" forall n: int :: 0 <= n ==> psize(csize(n, 4096, 4124), 4096, 4124) == n

func (*contentenc.ContentEnc).CipherSizeToPlainSize | be s -> r
  requires wfsz(be)
  cases be.cipherBS : 4128, 4124
  cases be.plainBS : 4096
  modifies nothing
  nopanic[C04,C07]
  ensures[C04,C01,C07,C11,C12] "plaintext size" r == psize(s, be.plainBS, be.cipherBS)
  ensures[C04,C07] "no larger than the stored size" r <= s

func (*contentenc.ContentEnc).PlainSizeToCipherSize | be n -> r
  requires wfsz(be)
  requires csize(n, be.plainBS, be.cipherBS) < 18446744073709551616
  cases be.cipherBS : 4128, 4124
  cases be.plainBS : 4096
  modifies nothing
  nopanic[C04]
  ensures[C04] "stored size" r == csize(n, be.plainBS, be.cipherBS)

# ---- block ranges (C05) ----

define pstart(x) = x.BlockNo * 4096 + x.Skip
define cstart(x, cbs) = 18 + x.BlockNo * cbs + x.Skip

define ptile(b, be, off, cur) =
    (forall i: int :: 0 <= i && i < len(b) ==> b[i].Length > 0 && b[i].Skip + b[i].Length <= 4096 && b[i].fs == be && pstart(b[i]) >= off && pstart(b[i]) + b[i].Length <= cur)
    && (len(b) == 0 ==> cur == off)
    && (len(b) > 0 ==> pstart(b[0]) == off && pstart(b[len(b)-1]) + b[len(b)-1].Length == cur)
    && (forall i: int :: 0 <= i && i + 1 < len(b) ==> pstart(b[i+1]) == pstart(b[i]) + b[i].Length)
define ctile(b, be, off, cur, cbs) =
    (forall i: int :: 0 <= i && i < len(b) ==> b[i].Length > 0 && b[i].Skip + b[i].Length <= cbs && b[i].fs == be && cstart(b[i], cbs) >= off && cstart(b[i], cbs) + b[i].Length <= cur)
    && (len(b) == 0 ==> cur == off)
    && (len(b) > 0 ==> cstart(b[0], cbs) == off && cstart(b[len(b)-1], cbs) + b[len(b)-1].Length == cur)
    && (forall i: int :: 0 <= i && i + 1 < len(b) ==> cstart(b[i+1], cbs) == cstart(b[i], cbs) + b[i].Length)

func (*contentenc.ContentEnc).ExplodePlainRange | be off n -> r
  requires wfsz(be)
  requires off + n < 2^64
  cases be.cipherBS : 4128, 4124
  cases be.plainBS : 4096
  modifies nothing
  nopanic[C05]
  terminates[C05]
  hint ptile(?b:[]contentenc.IntraBlock, be, off, ?cur)
  hint ?cur + ?left == off + n
  ensures[C05] "pieces tile the plaintext range" ptile(r, be, off, off + n)

func (*contentenc.ContentEnc).ExplodeCipherRange | be off n -> r
  requires wfsz(be)
  requires off + n < 2^64
  requires off >= 18
  cases be.cipherBS : 4128, 4124
  cases be.plainBS : 4096
  modifies nothing
  nopanic[C05]
  terminates[C05]
  hint ctile(?b:[]contentenc.IntraBlock, be, off, ?cur, be.cipherBS)
  hint ?cur + ?left == off + n
  ensures[C05] "pieces tile the ciphertext range" ctile(r, be, off, off + n, be.cipherBS)

func (*contentenc.ContentEnc).PlainOffToBlockNo | be off -> r
  requires wfsz(be)
  modifies nothing
  nopanic[C05]
  ensures[C05,C04,C01,C07,C11,C12] "block holds the offset" r * 4096 <= off && off < r * 4096 + 4096

func (*contentenc.ContentEnc).CipherOffToBlockNo | be off -> r
  requires wfsz(be)
  modifies nothing
  panics_if[C05,C07] off < 18
  cases be.cipherBS : 4128, 4124
  ensures[C05,C04,C01,C07,C11,C12] "block holds the offset" 18 + r * be.cipherBS <= off && off < 18 + (r + 1) * be.cipherBS

func (*contentenc.ContentEnc).BlockNoToPlainOff | be no -> r
  requires wfsz(be)
  requires no * 4096 < 2^64
  modifies nothing
  nopanic[C05]
  ensures[C05] "block number times block size" r == no * 4096

func (*contentenc.ContentEnc).BlockNoToCipherOff | be no -> r
  requires wfsz(be)
  requires 18 + no * be.cipherBS < 2^64
  cases be.cipherBS : 4128, 4124
  modifies nothing
  nopanic[C05]
  ensures[C05] "header plus block number times block size" r == 18 + no * be.cipherBS

lemma[C05] "offset inside a block translates back (plain)" forall k: int, o: int :: 0 <= k && 0 <= o && o < 4096 ==> (k * 4096 + o) / 4096 == k
lemma[C05] "offset inside a block translates back (cipher)" forall k: int, o: int :: 0 <= k && 0 <= o && o < 4128 ==> (18 + k * 4128 + o - 18) / 4128 == k

func (*contentenc.IntraBlock).JointCiphertextRange | ib blocks -> o n
  requires ib != nil && wfsz(ib.fs) && len(blocks) > 0
  requires 18 + blocks[0].BlockNo * ib.fs.cipherBS < 2^64 && 18 + (blocks[len(blocks)-1].BlockNo + 1) * ib.fs.cipherBS < 2^64
  requires blocks[0].BlockNo <= blocks[len(blocks)-1].BlockNo
  cases ib.fs.cipherBS : 4128, 4124
  cases ib.fs.plainBS : 4096
  modifies nothing
  nopanic[C05]
  ensures[C05] "whole blocks, first to last (ciphertext)" o == 18 + blocks[0].BlockNo * ib.fs.cipherBS && o + n == 18 + (blocks[len(blocks)-1].BlockNo + 1) * ib.fs.cipherBS

func contentenc.JointPlaintextRange | blocks -> o n
  requires len(blocks) > 0 && wfsz(blocks[0].fs) && wfsz(blocks[len(blocks)-1].fs)
  requires blocks[0].BlockNo <= blocks[len(blocks)-1].BlockNo && (blocks[len(blocks)-1].BlockNo + 1) * 4096 < 2^64
  modifies nothing
  nopanic[C05]
  ensures[C05] "whole blocks, first to last (plaintext)" o == blocks[0].BlockNo * 4096 && o + n == (blocks[len(blocks)-1].BlockNo + 1) * 4096

func (*contentenc.IntraBlock).BlockCipherOff | ib -> r
  requires ib != nil && wfsz(ib.fs)
  requires 18 + ib.BlockNo * ib.fs.cipherBS < 2^64
  cases ib.fs.cipherBS : 4128, 4124
  modifies nothing
  nopanic[C05]
  ensures[C05] "block number times ciphertext block size, after the header" r == 18 + ib.BlockNo * ib.fs.cipherBS

func (*contentenc.IntraBlock).BlockPlainOff | ib -> r
  requires ib != nil && wfsz(ib.fs)
  requires ib.BlockNo * 4096 < 2^64
  modifies nothing
  nopanic[C05]
  ensures[C05] "block number times plaintext block size" r == ib.BlockNo * 4096

func (*contentenc.IntraBlock).IsPartial | ib -> r
  requires ib != nil && ib.fs != nil
  modifies nothing
  nopanic[C05]
  ensures[C05] "exactly if it does not cover its block" r == (ib.Skip > 0 || ib.Length < ib.fs.plainBS)

func (*contentenc.IntraBlock).CropBlock | ib d -> r
  requires ib != nil && ib.Skip <= len(d) && ib.Skip + ib.Length < 2^63
  modifies nothing
  nopanic[C05]
  ensures[C05] "the piece's part of the block" bytes(r) == sub(bytes(d), ib.Skip, min(ib.Length, len(d) - ib.Skip))
