# Volume config (gocrypt/configfile): key derivation, unlocking, writing

# scrypt(password, salt, N, r, p, length)
uf scryptf(seq, seq, int, int, int, int) seq

define strong(s) = s.N >= 1024 && s.R >= 8 && s.P >= 1 && len(s.Salt) >= 32 && s.KeyLen >= 32

extern golang.org/x/crypto/scrypt.Key | pw salt n r p l -> k err
  requires[C23] "no weak parameters" n >= 1024 && r >= 8 && p >= 1 && len(salt) >= 32 && l >= 32
  modifies nothing
  ensures err == nil ==> fresh(k) && bytes(k) == scryptf(bytes(pw), bytes(salt), n, r, p, l) && len(k) == l

func (*configfile.ScryptKDF).DeriveKey | s pw -> k
  requires s != nil
  modifies nothing
  ensures[C23] "refuses weak parameters" strong(s)
  ensures[C22,C23] "scrypt of the password under the stored parameters" bytes(k) == scryptf(bytes(pw), bytes(s.Salt), s.N, s.R, s.P, s.KeyLen) && len(k) == s.KeyLen && fresh(k)

func configfile.NewScryptKDF | logN -> s
  modifies nothing
  ensures[C23] "a new random 32-byte salt" len(s.Salt) == 32 && israndom(bytes(s.Salt)) && fresh(s.Salt)
  ensures[C23] "fixed r, p and output length" s.R == 8 && s.P == 1 && s.KeyLen == 32
  ensures[C23] "the requested cost" (logN <= 0 ==> s.N == 65536) && (0 < logN && logN < 62 ==> s.N == pow2(logN))

# names of the feature flags, in the order of their numbers
define flagname(i) = if i == 0 then "PlaintextNames" else if i == 1 then "DirIV" else if i == 2 then "EMENames" else if i == 3 then "GCMIV128" else if i == 4 then "LongNames"
    else if i == 5 then "AESSIV" else if i == 6 then "Raw64" else if i == 7 then "HKDF" else if i == 8 then "Trezor" else ""
define hasflag(cf, i) = exists j: int :: 0 <= j && j < len(cf.FeatureFlags) && cf.FeatureFlags[j] == flagname(i)
define known(s) = s == flagname(0) || s == flagname(1) || s == flagname(2) || s == flagname(3) || s == flagname(4) || s == flagname(5) || s == flagname(6) || s == flagname(7) || s == flagname(8)

func (*configfile.ConfFile).IsFeatureFlagSet | cf f -> r
  requires cf != nil && 0 <= f && f <= 8
  modifies nothing
  hint forall j: int :: 0 <= j && j <= ?i:int ==> cf.FeatureFlags[j] != flagname(f)
  nopanic[C22,C07]
  ensures[C22,C08] "set exactly if listed" r == hasflag(cf, f)

extern io/ioutil.ReadFile | name -> r err
  modifies nothing
  ensures err == nil ==> fresh(r) && bytes(r) == @k_disk(0, name) && len(r) < 2^40
  ensures err != nil ==> len(r) == 0

extern os.ReadFile | name -> r err
  modifies nothing
  ensures err == nil ==> fresh(r) && bytes(r) == @k_disk(0, name) && len(r) < 2^40
  ensures err != nil ==> len(r) == 0

define okconf(cf) = cf.Version == 2 && (forall j: int :: 0 <= j && j < len(cf.FeatureFlags) ==> known(cf.FeatureFlags[j]))
    && hasflag(cf, 3) && (hasflag(cf, 0) || (hasflag(cf, 1) && hasflag(cf, 2)))
define fromfile(cf, data) = cf.Version == jsonint(data, "Version") && bytes(cf.EncryptedKey) == jsonseq(data, "EncryptedKey")
    && bytes(cf.ScryptObject.Salt) == jsonseq(data, "ScryptObject.Salt") && cf.ScryptObject.N == jsonint(data, "ScryptObject.N") && cf.ScryptObject.R == jsonint(data, "ScryptObject.R")
    && cf.ScryptObject.P == jsonint(data, "ScryptObject.P") && cf.ScryptObject.KeyLen == jsonint(data, "ScryptObject.KeyLen")

define dhas(d, i) = exists j: int :: 0 <= j && j < jsonlen(d, "FeatureFlags") && jsonelem(d, "FeatureFlags", j) == flagname(i)
define dok(d) = jsonint(d, "Version") == 2 && (forall j: int :: 0 <= j && j < jsonlen(d, "FeatureFlags") ==> known(jsonelem(d, "FeatureFlags", j)))
    && dhas(d, 3) && (dhas(d, 0) || (dhas(d, 1) && dhas(d, 2)))
define sameflag(cf, d, i) = hasflag(cf, i) == dhas(d, i)
define sameflags(cf, d) = sameflag(cf, d, 0) && sameflag(cf, d, 1) && sameflag(cf, d, 2) && sameflag(cf, d, 3) && sameflag(cf, d, 4) && sameflag(cf, d, 5) && sameflag(cf, d, 6) && sameflag(cf, d, 7) && sameflag(cf, d, 8)

func configfile.Load | filename -> r err
  opt home C22,C08
  modifies nothing
  nopanic[C22]
  hint forall j: int :: 0 <= j && j <= ?i:int ==> known((let c = ?c:*configfile.ConfFile; c.FeatureFlags[j]))
  hint forall j: int :: 0 <= j && j < ?i:int ==> known((let c = ?c:*configfile.ConfFile; c.FeatureFlags[j]))
  hint let c = ?c:*configfile.ConfFile; let l = ?l:[]configfile.flagIota; !?d:bool ==> (forall j: int :: 0 <= j && j <= ?i:int ==> hasflag(c, l[j]))
  hint let c = ?c:*configfile.ConfFile; let l = ?l:[]configfile.flagIota; !?d:bool ==> (forall j: int :: 0 <= j && j < ?i:int ==> hasflag(c, l[j]))
  ensures err == nil ==> r != nil && fresh(r)
  ensures[C22] "only a supported config" err == nil ==> r != nil && fresh(r) && okconf(r) && dok(@k_disk(0, filename))
  ensures[C22] "the config in the file" err == nil ==> fromfile(r, @k_disk(0, filename)) && len(@k_disk(0, filename)) > 0
  ensures[C22,C08] "the flags in the file" err == nil ==> sameflags(r, @k_disk(0, filename))

# AES-GCM is determined by its key
uf kopenok(seq, seq, seq, seq) bool
uf kopen(seq, seq, seq, seq) seq
axiom[C22] forall a: int, n: seq, s: seq, d: seq {aopenok(a, n, s, d)} :: aopenok(a, n, s, d) == kopenok(aeadkey(a), n, s, d)
axiom[C22] forall a: int, n: seq, s: seq, d: seq {aopen(a, n, s, d)} :: aopen(a, n, s, d) == kopen(aeadkey(a), n, s, d)

define ivof(cf) = if hasflag(cf, 7) then 16 else 12
define pwkey(cf, pw) = scryptf(pw, bytes(cf.ScryptObject.Salt), cf.ScryptObject.N, cf.ScryptObject.R, cf.ScryptObject.P, cf.ScryptObject.KeyLen)
define wrapkey(cf, pw) = if hasflag(cf, 7) then derive(pwkey(cf, pw), "AES-GCM file content encryption", 32) else pwkey(cf, pw)
# the wrapped key w authenticates under key k with nonces of iv bytes
define unwraps(w, iv, k) = len(w) >= iv + 16 && kopenok(k, sub(w, 0, iv), sub(w, iv, len(w) - iv), adata(0, ""))
define unwrapped(w, iv, k) = kopen(k, sub(w, 0, iv), sub(w, iv, len(w) - iv), adata(0, ""))

func (*configfile.ConfFile).DecryptMasterKey | cf pw -> r err
  opt home C22
  requires cf != nil
  let iv = ivof(cf)
  let k = wrapkey(cf, bytes(pw))
  let w = bytes(cf.EncryptedKey)
  modifies allof("tlog.toggledLogger.Enabled")
  ensures[C22] "only what authenticates under the password" err == nil ==> unwraps(w, iv, k)
  ensures[C22] "exactly the unwrapped key, of 32 bytes" err == nil ==> bytes(r) == unwrapped(w, iv, k) && len(r) == 32
  ensures "own memory" len(r) > 0 ==> fresh(r)
  ensures[C22] "no key on failure" err != nil ==> len(r) == 0

# the same, of the document a config was read from
define divof(d) = if dhas(d, 7) then 16 else 12
define dpwkey(d, pw) = scryptf(pw, jsonseq(d, "ScryptObject.Salt"), jsonint(d, "ScryptObject.N"), jsonint(d, "ScryptObject.R"), jsonint(d, "ScryptObject.P"), jsonint(d, "ScryptObject.KeyLen"))
define dwrapkey(d, pw) = if dhas(d, 7) then derive(dpwkey(d, pw), "AES-GCM file content encryption", 32) else dpwkey(d, pw)
define dopens(d, pw) = unwraps(jsonseq(d, "EncryptedKey"), divof(d), dwrapkey(d, pw))
define dkey(d, pw) = unwrapped(jsonseq(d, "EncryptedKey"), divof(d), dwrapkey(d, pw))

func configfile.LoadAndDecrypt | filename pw -> key cf err
  opt home C22,C08
  let d = @k_disk(0, filename)
  modifies allof("tlog.toggledLogger.Enabled")
  ensures[C22] "only a supported config" err == nil ==> cf != nil && fresh(cf) && dok(d)
  ensures[C22,C08] "its flags" err == nil ==> cf != nil && sameflags(cf, d)
  ensures "own memory" len(key) > 0 ==> fresh(key)
  ensures err == nil ==> cf != nil
  ensures[C22] "no key without a password" len(pw) == 0 || err != nil ==> len(key) == 0
  ensures[C22] "only what authenticates under the password" err == nil && len(pw) > 0 ==> dopens(d, bytes(pw))
  ensures[C22] "exactly the unwrapped key" err == nil && len(pw) > 0 ==> bytes(key) == dkey(d, bytes(pw)) && len(key) == 32

# local files: content, created by this process as a new file, flushed, closed without error
ghost k_fname(int) seq
ghost k_made(int, seq) bool
ghost k_synced(int, seq) bool
ghost k_closed(int, seq) bool
ghost k_of_n(int) int
ghost k_of_name(int) seq
ghost k_rn_from(int) seq
ghost k_rn_to(int) seq
ghost k_rn_ok(int) bool
ghost k_js(int) seq
ghost k_js_of(int) int
uf diskmix(seq, seq, int) seq
axiom[C26] forall p: seq, q: seq {fdir(p + q)} :: (forall i: int :: 0 <= i && i < len(q) ==> q[i] != 47) ==> fdir(p + q) == fdir(p)
define bit(x, b) = x / b % 2 == 1

extern os.OpenFile | name flag perm -> f err
  requires[C26] "only new files are opened" bit(flag, 64) && bit(flag, 128)
  requires[C26] "readable only by its owner" perm % 64 == 0
  modifies nothing
  ensures err == nil ==> f != nil && fresh(f)
  set @k_fname(f) == name
  set @k_of_name(@k_of_n(0)) == name
  set @k_of_n(0) == @k_of_n(0) + 1
  set @k_made(0, name) == (err == nil)
  set @k_closed(0, name) == false
  set @k_synced(0, name) == false
  set @k_disk(0, name) == (if err == nil then "" else @k_disk(0, name))
extern io/ioutil.TempFile | dir pat -> f err
  modifies nothing
  ensures err == nil ==> f != nil && fresh(f)
  set @k_of_name(@k_of_n(0)) == @k_fname(f)
  set @k_of_n(0) == @k_of_n(0) + 1
  set @k_made(0, @k_fname(f)) == (err == nil)
  set @k_closed(0, @k_fname(f)) == false
  set @k_synced(0, @k_fname(f)) == false
  set @k_disk(0, @k_fname(f)) == ""
extern os.CreateTemp | dir pat -> f err
  modifies nothing
  ensures err == nil ==> f != nil && fresh(f)
  set @k_of_name(@k_of_n(0)) == @k_fname(f)
  set @k_of_n(0) == @k_of_n(0) + 1
  set @k_made(0, @k_fname(f)) == (err == nil)
  set @k_closed(0, @k_fname(f)) == false
  set @k_synced(0, @k_fname(f)) == false
  set @k_disk(0, @k_fname(f)) == ""
extern (*os.File).Name | f -> r
  modifies nothing
  ensures r == @k_fname(f)
extern (*os.File).Write | f b -> n err
  modifies nothing
  ensures (err == nil) ==> n == len(b)
  set @k_synced(0, @k_fname(f)) == false
  set @k_disk(0, @k_fname(f)) == (if err == nil then @k_disk(0, @k_fname(f)) + bytes(b) else diskmix(@k_disk(0, @k_fname(f)), bytes(b), n))
extern (*os.File).WriteString | f b -> n err
  modifies nothing
  ensures (err == nil) ==> n == len(b)
  set @k_synced(0, @k_fname(f)) == false
  set @k_disk(0, @k_fname(f)) == (if err == nil then @k_disk(0, @k_fname(f)) + b else diskmix(@k_disk(0, @k_fname(f)), b, n))
extern (*os.File).Close | f -> err
  modifies nothing
  set @k_closed(0, @k_fname(f)) == (err == nil)
extern (*os.File).Sync | f -> err
  modifies nothing
  set @k_synced(0, @k_fname(f)) == true
extern (*os.File).Chmod | f mode -> err
  requires[C26] "readable only by its owner" mode % 64 == 0
  modifies nothing
extern os.Chmod | name mode -> err
  requires[C26] "readable only by its owner" mode % 64 == 0 && @k_made(0, name)
  modifies nothing
extern os.Remove | name -> err
  requires[C26] "only a file made here is removed" @k_made(0, name)
  modifies nothing
  set @k_disk(0, name) == ""
  set @k_made(0, name) == false
extern os.Rename | from to -> err
  requires[C26] "only a file made here is renamed" @k_made(0, from)
  requires[C26] "only after the content was written in full" @k_disk(0, from) == @k_js(0) + "\n"
  requires[C26] "only after it was closed without error" @k_closed(0, from)
  requires[C26] "only after a flush to disk" @k_synced(0, from)
  requires[C26] "within the directory" fdir(from) == fdir(to)
  modifies nothing
  set @k_rn_from(0) == from
  set @k_rn_to(0) == to
  set @k_rn_ok(0) == (err == nil)
extern os.Create | name
  requires[C26] "only new files are opened" false
extern os.Truncate | name n
  requires[C26] "the old file stays as it is" false
extern (*os.File).Truncate | f n
  requires[C26] "the old file stays as it is" false
extern io/ioutil.WriteFile | name b perm
  requires[C26] "only new files are opened" false
extern os.WriteFile | name b perm
  requires[C26] "only new files are opened" false
extern os.Link | a b
  requires[C26] "replaced by a rename" false
extern os.Symlink | a b
  requires[C26] "replaced by a rename" false
extern encoding/json.MarshalIndent | v p i -> r err
  modifies nothing
  ensures err == nil ==> fresh(r) && len(r) > 0 && len(r) < 2^40
  set @k_js(0) == bytes(r)
  set @k_js_of(0) == pay(v)
extern encoding/json.Marshal | v -> r err
  modifies nothing
  ensures err == nil ==> fresh(r) && len(r) > 0 && len(r) < 2^40
  set @k_js(0) == bytes(r)
  set @k_js_of(0) == pay(v)

ghost k_wf_n(int) int
ghost k_wf_N(int) int
ghost k_wf_salt(int) seq
ghost k_wf_ok(int) bool
define newparams(s, logN) = israndom(bytes(s.Salt)) && len(s.Salt) == 32 && s.R == 8 && s.P == 1 && s.KeyLen == 32 && (logN <= 0 ==> s.N == 65536) && (0 < logN && logN < 62 ==> s.N == pow2(logN))

func (*configfile.ConfFile).WriteFile | cf -> err
  requires cf != nil
  let n = @k_of_n(0)
  let name = cf.filename
  modifies nothing
  nopanic[C26]
  set @k_wf_n(0) == @k_wf_n(0) + 1
  set @k_wf_N(0) == cf.ScryptObject.N
  set @k_wf_salt(0) == bytes(cf.ScryptObject.Salt)
  set @k_wf_ok(0) == (cf.ScryptObject.R == 8 && cf.ScryptObject.P == 1 && cf.ScryptObject.KeyLen == 32)
  ensures[C26] "the config file itself is never opened" forall i: int {@k_of_name(i)} :: n <= i && i < @k_of_n(0) ==> @k_of_name(i) != name
  ensures[C26] "success only when the new file was renamed to the config file" err == nil ==> @k_rn_to(0) == name && @k_rn_ok(0)
  ensures[C26] "the config itself was written" err == nil ==> @k_js_of(0) == cf

func (*configfile.ConfFile).EncryptKey | cf key pw logN
  requires cf != nil && 1 <= len(key) && len(key) <= 4096 && @held(addr(prefetch().Mutex)) == 0
  modifies cf.ScryptObject, cf.EncryptedKey, prefetch().buf, @refilled(prefetch().refill)
  ensures[C23] "fresh parameters of the requested cost" newparams(cf.ScryptObject, logN)
  ensures "own memory" fresh(cf.ScryptObject.Salt)

func configfile.Create | filename pw plain logN creator siv dev trezor -> err
  requires @held(addr(prefetch().Mutex)) == 0
  let n = @k_wf_n(0)
  modifies prefetch().buf, @refilled(prefetch().refill), allof("tlog.toggledLogger.Enabled")
  ensures[C23] "the config was written" err == nil ==> @k_wf_n(0) == n + 1
  ensures[C23] "with a fresh salt" err == nil ==> israndom(@k_wf_salt(0)) && len(@k_wf_salt(0)) == 32
  ensures[C23] "with fixed r, p and output length" err == nil ==> @k_wf_ok(0)
  ensures[C23] "with the requested cost" err == nil ==> (logN <= 0 ==> @k_wf_N(0) == 65536) && (0 < logN && logN < 62 ==> @k_wf_N(0) == pow2(logN))

ghost k_fa_path(int) seq
ghost k_fa_data(int) seq
ghost k_fa_err(int) bool
extern filetree.FSAccessor.ReadFile | b p -> r err
  modifies nothing
  set @k_fa_path(0) == p
  set @k_fa_data(0) == bytes(r)
  set @k_fa_err(0) == (err != nil)
  ensures err == nil ==> fresh(r) && len(r) < 2^40

define confdata() = @k_fa_data(0)
func filetree.Init | root pw n b -> r err
  opt home C22,C08,C07,C10
  requires 0 <= n && n < 2^30 && b != nil && pay(b) != 0 && nolocks()
  let p = bytes(pw)
  set @k_in_tag(0) == tag(b)
  set @k_in_pay(0) == pay(b)
  set @k_in_root(0) == root
  set @k_in_pw(0) == p
  set @k_in_ok(0) == (err == nil)
  set @k_in_ft(0) == r
  modifies allof("tlog.toggledLogger.Enabled")
  defines err == nil ==> fcroot(r.fastCache) == root && fcback(r.fastCache) == pay(b) && fcdec(r.fastCache) == pay(r.reqCacher.decrypter)
  ensures[C22] "no volume without a password" len(pw) == 0 ==> err != nil
  ensures[C22] "the config of the volume" err == nil ==> @k_fa_path(0) == fjoin(root, "gocryptfs.conf") && !@k_fa_err(0)
  ensures[C22] "only a supported config" err == nil ==> dok(confdata())
  ensures[C22] "only with the password its key was wrapped under" err == nil ==> dopens(confdata(), p)
  ensures[C22] "contents are read with the unwrapped key" err == nil ==> aeadkey(pay(r.cEnc.cryptoCore.AEADCipher)) == (if dhas(confdata(), 7) then derive(dkey(confdata(), p), "AES-GCM file content encryption", 32) else dkey(confdata(), p))
  ensures[C22] "names are read with the unwrapped key" err == nil ==> is(r.reqCacher.decrypter, "*nametransform.NameTransform") && emekey(as(r.reqCacher.decrypter, "*nametransform.NameTransform").emeCipher) == (if dhas(confdata(), 7) then derive(dkey(confdata(), p), "EME filename encryption", 32) else dkey(confdata(), p))
  ensures[C08] "names are read in the flavour of the volume" err == nil ==> is(r.reqCacher.decrypter, "*nametransform.NameTransform")
    && (let t = as(r.reqCacher.decrypter, "*nametransform.NameTransform"); t.longNames == dhas(confdata(), 4) && t.B64 == (if dhas(confdata(), 6) then extglobal("encoding/base64.RawURLEncoding") else extglobal("encoding/base64.URLEncoding")))
  ensures[C22] "nothing on failure" err != nil ==> r == nil
  ensures[C07,C10,C11,C12,C18,C01] "a well-formed tree over that remote" err == nil ==> wft(r) && r.encryptedRoot == root && pay(r.reqCacher.backend) == pay(b) && pay(r.fsAccessor) == pay(b)

extern os.Open | name -> f err
  modifies nothing
  ensures err == nil ==> f != nil && fresh(f)
  set @k_fname(f) == name
func tlog.PrintMasterkeyReminder | key
  modifies nothing
extern (*os.File).Fd | f -> r
  modifies nothing

# SSH key files (config/config.go)
uf haspem(seq) bool
uf pemenc(seq) bool
uf pemsrc(int) seq
define encrypted(d) = haspem(d) && pemenc(d)
# what parsing a key file gives, without and with a passphrase
uf keyok(seq) bool
uf keyof(seq) int
uf keyokp(seq, seq) bool
uf keyofp(seq, seq) int
uf wrongp(seq, seq) bool
ghost k_pr_n(int) int
ghost k_pr_pw(int) seq
ghost k_pr_err(int) bool
extern encoding/pem.Decode | data -> b rest
  modifies nothing
  ensures (b != nil) == haspem(bytes(data))
  ensures b != nil ==> fresh(b) && pemsrc(b) == bytes(data)
extern crypto/x509.IsEncryptedPEMBlock | b -> r
  requires[C27] "a PEM block" b != nil
  modifies nothing
  ensures r == pemenc(pemsrc(b))
extern golang.org/x/crypto/ssh.ParsePrivateKey | d -> s err
  modifies nothing
  ensures (err == nil) == keyok(bytes(d))
  ensures err == nil ==> s != nil && pay(s) == keyof(bytes(d))
extern golang.org/x/crypto/ssh.ParsePrivateKeyWithPassphrase | d p -> s err
  modifies nothing
  ensures (err == nil) == keyokp(bytes(d), bytes(p))
  ensures err == nil ==> s != nil && pay(s) == keyofp(bytes(d), bytes(p))
  ensures (err != nil && err == extglobal("crypto/x509.IncorrectPasswordError")) == wrongp(bytes(d), bytes(p))
extern config.PasswordReader.ReadPassword | r prompt -> pw err
  modifies nothing
  set @k_pr_pw(@k_pr_n(0)) == bytes(pw)
  set @k_pr_err(@k_pr_n(0)) == (err != nil)
  set @k_pr_n(0) == @k_pr_n(0) + 1

func (*config.Config).LoadSSHKey | c -> s err
  set @k_sk_pay(0) == pay(s)
  set @k_sk_path(0) == c.Remote.PrivateKeyPath
  set @k_sk_ok(0) == (err == nil)
  requires c != nil
  let n = @k_pr_n(0)
  let d = @k_disk(0, c.Remote.PrivateKeyPath)
  modifies nothing
  nopanic[C27]
  terminates[C27]
  hint @k_pr_n(0) == n + ?i:int
  hint forall i: int {@k_pr_err(i)} :: n <= i && i < @k_pr_n(0) ==> !@k_pr_err(i) && wrongp(d, @k_pr_pw(i))
  ensures[C27,C21] "a key only if the key file parsed" err == nil && !encrypted(d) ==> s != nil && keyok(d)
  ensures[C27,C21] "an encrypted key only with the passphrase given last" err == nil && encrypted(d) ==> s != nil && keyokp(d, @k_pr_pw(@k_pr_n(0) - 1))
  ensures[C27,C21] "an encrypted key only with a passphrase" err == nil && encrypted(d) ==> @k_pr_n(0) > n
  ensures[C27,C21] "that key" err == nil ==> pay(s) == (if encrypted(d) then keyofp(d, @k_pr_pw(@k_pr_n(0) - 1)) else keyof(d))
  ensures[C27] "at most three prompts" n <= @k_pr_n(0) && @k_pr_n(0) <= n + 3
  ensures[C27] "no prompt for a key that is not encrypted" !encrypted(d) ==> @k_pr_n(0) == n
  ensures[C27] "another prompt only after an incorrect passphrase" forall i: int {@k_pr_err(i)} :: n <= i && i < @k_pr_n(0) - 1 ==> !@k_pr_err(i) && wrongp(d, @k_pr_pw(i))
extern golang.org/x/crypto/ssh/terminal.ReadPassword | fd -> pw err
  modifies nothing
  set @k_pr_pw(@k_pr_n(0)) == bytes(pw)
  set @k_pr_err(@k_pr_n(0)) == (err != nil)
  set @k_pr_n(0) == @k_pr_n(0) + 1
