# File names (gocrypt/nametransform)

uf b64enc(int, seq) seq
uf b64dec(int, seq) seq
uf b64ok(int, seq) bool
axiom forall e: int, s: seq {b64enc(e, s)} :: b64ok(e, b64enc(e, s)) && b64dec(e, b64enc(e, s)) == s

uf emeenc(int, seq, seq) seq
uf emedec(int, seq, seq) seq
axiom forall k: int, t: seq, s: seq {emeenc(k, t, s)} :: len(emeenc(k, t, s)) == len(s) && emedec(k, t, emeenc(k, t, s)) == s
axiom forall k: int, t: seq, s: seq {emedec(k, t, s)} :: len(emedec(k, t, s)) == len(s)

extern (*encoding/base64.Encoding).DecodeString | enc s -> r err
  modifies nothing
  ensures (err == nil) == b64ok(enc, s)
  ensures err == nil ==> bytes(r) == b64dec(enc, s)
  ensures fresh(r) || len(r) == 0
extern (*encoding/base64.Encoding).EncodeToString | enc src -> r
  modifies nothing
  ensures r == b64enc(enc, bytes(src))
extern (*github.com/rfjakob/eme.EMECipher).Decrypt | k tweak in -> r
  modifies nothing
  panics_if k == nil || len(tweak) != 16 || len(in) == 0 || len(in) % 16 != 0 || len(in) > 2048
  ensures bytes(r) == emedec(k, bytes(tweak), bytes(in)) && fresh(r)
extern (*github.com/rfjakob/eme.EMECipher).Encrypt | k tweak in -> r
  modifies nothing
  panics_if k == nil || len(tweak) != 16 || len(in) == 0 || len(in) % 16 != 0 || len(in) > 2048
  ensures bytes(r) == emeenc(k, bytes(tweak), bytes(in)) && fresh(r)

# PKCS#7 padding to 16 bytes
define padn(n) = 16 - n % 16
define padded(s) = s + rep(padn(len(s)), padn(len(s)))
define okpad(s) = len(s) > 0 && len(s) % 16 == 0 && s[len(s)-1] >= 1 && s[len(s)-1] <= 16 && s[len(s)-1] < len(s)
    && (forall i: int :: len(s) - s[len(s)-1] <= i && i < len(s) ==> s[i] == s[len(s)-1])
define unpadded(s) = sub(s, 0, len(s) - s[len(s)-1])

lemma[C08] "padding adds 1 to 16 bytes up to a multiple of 16" forall n: int :: n > 0 ==> padn(n) >= 1 && padn(n) <= 16 && (n + padn(n)) % 16 == 0
lemma[C08] "padding is removed again" forall s: seq :: len(s) > 0 ==> okpad(padded(s)) && unpadded(padded(s)) == s
lemma[C08] "only padded strings are accepted" forall s: seq :: okpad(s) ==> len(unpadded(s)) > 0 && padded(unpadded(s)) == s

func nametransform.pad16 | orig -> r
  modifies nothing
  panics_if[C08,C07] len(orig) == 0
  hint let q = bytes(?b:[]byte); len(q) == len(orig) + padn(len(orig)) && sub(q, 0, len(orig)) == bytes(orig) && (forall j: int :: len(orig) <= j && j < ?i ==> q[j] == padn(len(orig)))
  ensures[C08,C07] "padded" bytes(r) == padded(bytes(orig))
  ensures fresh(r)

func nametransform.unPad16 | s -> r err
  modifies nothing
  nopanic[C07,C08,C09]
  hint ?i >= len(s) - s[len(s)-1] && ?i <= len(s)
  hint forall j: int :: len(s) - s[len(s)-1] <= j && j < ?i ==> s[j] == s[len(s)-1]
  ensures[C08,C09,C10,C11,C12] "accepts exactly padded strings" (err == nil) == okpad(old(bytes(s)))
  ensures[C08,C09,C10,C11,C12] "without the padding" err == nil ==> bytes(r) == unpadded(old(bytes(s)))
  ensures err == nil ==> base(r) == base(s) && off(r) == off(s) && len(r) < len(s)

define legal(n) = len(n) > 0 && (forall i: int :: 0 <= i && i < len(n) ==> n[i] != 0 && n[i] != 47) && n != "." && n != ".."
# what name decryption has to answer
define nbin(nt, c) = b64dec(nt.B64, c)
define nraw(nt, c, iv) = emedec(nt.emeCipher, iv, b64dec(nt.B64, c))
define okname(nt, c, iv) = b64ok(nt.B64, c) && len(nbin(nt, c)) > 0 && len(nbin(nt, c)) % 16 == 0 && len(nbin(nt, c)) <= 2048 && len(iv) == 16
    && okpad(nraw(nt, c, iv)) && legal(unpadded(nraw(nt, c, iv)))

func (*nametransform.NameTransform).DecryptName | n c iv -> r err
  requires n != nil && n.B64 != nil && n.emeCipher != nil
  modifies nothing
  nopanic[C07,C09]
  ensures[C08,C09] "succeeds exactly for names made by encryption" (err == nil) == okname(n, c, bytes(iv))
  ensures[C08,C09] "the decrypted name" err == nil ==> r == unpadded(nraw(n, c, bytes(iv)))
  ensures[C09] "safe path component" err == nil ==> legal(r)
  ensures[C09] "no name on failure" err != nil ==> len(r) == 0

func (*nametransform.NameTransform).EncryptName | n p iv -> r
  requires n != nil && n.B64 != nil && n.emeCipher != nil
  modifies nothing
  panics_if[C08] len(p) == 0 || len(iv) != 16 || len(p) > 2047
  ensures[C08] "encrypted padded name" r == b64enc(n.B64, emeenc(n.emeCipher, bytes(iv), padded(p)))

lemma[C08] "name encryption is inverted by decryption" forall e: int, k: int, iv: seq, p: seq {b64enc(e, emeenc(k, iv, padded(p)))} :: len(iv) == 16 && legal(p) && len(p) <= 255 ==>
    (let c = b64enc(e, emeenc(k, iv, padded(p))); let d = emedec(k, iv, b64dec(e, c)); b64ok(e, c) && len(b64dec(e, c)) > 0 && len(b64dec(e, c)) % 16 == 0 && len(b64dec(e, c)) <= 2048 && okpad(d) && legal(unpadded(d)) && unpadded(d) == p)

func nametransform.New | e longNames raw64 -> r
  modifies nothing
  nopanic
  ensures[C08,C22] "base64 flavour as configured" r != nil && r.emeCipher == e && r.longNames == longNames
  ensures[C08] "unpadded base64 with Raw64" raw64 ==> r.B64 == extglobal("encoding/base64.RawURLEncoding")
  ensures[C08] "padded base64 without" !raw64 ==> r.B64 == extglobal("encoding/base64.URLEncoding")
  ensures r.B64 != nil && fresh(r)
