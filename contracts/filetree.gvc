# The plaintext view (filetree/filetree.go)

# path/filepath, as far as the proxy depends on it
uf fclean(seq) seq
uf fdir(seq) seq
uf fbase(seq) seq
uf fjoin(seq, seq) seq
define fabs(p) = len(p) > 0 && p[0] == 47
axiom forall p: seq {fclean(p)} :: fclean(fclean(p)) == fclean(p) && (fabs(p) ==> fabs(fclean(p)))
axiom forall p: seq {fdir(p)} :: fabs(p) && fclean(p) == p && p != "/" ==> fabs(fdir(p)) && fclean(fdir(p)) == fdir(p) && len(fdir(p)) < len(p)
extern path/filepath.Clean | p -> r
  modifies nothing
  ensures r == fclean(p)
extern path/filepath.Dir | p -> r
  modifies nothing
  ensures r == fdir(p)
extern path/filepath.Base | p -> r
  modifies nothing
  ensures r == fbase(p)
extern path/filepath.Join | e -> r
  modifies nothing
  ensures len(e) == 2 ==> r == fjoin(e[0], e[1])
extern path.Clean | p -> r
  modifies nothing
  ensures r == fclean(p)
extern path.Dir | p -> r
  modifies nothing
  ensures r == fdir(p)
extern path.Base | p -> r
  modifies nothing
  ensures r == fbase(p)
extern path.Join | e -> r
  modifies nothing
  ensures len(e) == 2 ==> r == fjoin(e[0], e[1])

# The answers of the remote determine a tree. entry(b, d, c, n, e, dir): the listing of
# remote directory c has an entry named e, a directory or not, whose name the
# decrypter decrypts with the IV file of c to n; missing: it has no entry that decrypts to n, or
# reading the IV file or the listing failed.
uf entry(int, int, seq, seq, seq, bool) bool
uf missing(int, int, seq, seq) bool
# leaf(R, b, d, p, c, dir): plaintext path p, walked from remote directory R, is the remote path c
uf leaf(seq, int, int, seq, seq, bool) bool
# it resolves to nothing; it resolves to something that is not a directory
uf unres(seq, int, int, seq) bool
uf nodir(seq, int, int, seq) bool
uf isdirp(seq, int, int, seq) bool
axiom forall R: seq, b: int, d: int, c: seq, dir: bool {leaf(R, b, d, "/", c, dir)} :: leaf(R, b, d, "/", c, dir) == (c == R && dir)
axiom forall R: seq, b: int, d: int, p: seq, c: seq, e: seq, dir: bool {leaf(R, b, d, fdir(p), c, true), entry(b, d, c, fbase(p), e, dir)} ::
    fabs(p) && fclean(p) == p && p != "/" && leaf(R, b, d, fdir(p), c, true) && entry(b, d, c, fbase(p), e, dir) ==> leaf(R, b, d, p, fjoin(c, e), dir)
axiom forall R: seq, b: int, d: int, p: seq {unres(R, b, d, fdir(p))} :: fabs(p) && fclean(p) == p && p != "/" && unres(R, b, d, fdir(p)) ==> unres(R, b, d, p)
axiom forall R: seq, b: int, d: int, p: seq, c: seq {leaf(R, b, d, fdir(p), c, true), missing(b, d, c, fbase(p))} ::
    fabs(p) && fclean(p) == p && p != "/" && leaf(R, b, d, fdir(p), c, true) && missing(b, d, c, fbase(p)) ==> unres(R, b, d, p)
axiom forall R: seq, b: int, d: int, p: seq, c: seq, e: seq {leaf(R, b, d, fdir(p), c, true), entry(b, d, c, fbase(p), e, false)} ::
    fabs(p) && fclean(p) == p && p != "/" && leaf(R, b, d, fdir(p), c, true) && entry(b, d, c, fbase(p), e, false) ==> nodir(R, b, d, p)
axiom forall R: seq, b: int, d: int, p: seq, c: seq {leaf(R, b, d, p, c, true)} :: leaf(R, b, d, p, c, true) ==> isdirp(R, b, d, p)
axiom forall R: seq, b: int, d: int {isdirp(R, b, d, "/")} :: isdirp(R, b, d, "/")
axiom forall R: seq, b: int, d: int, p: seq {nodir(R, b, d, fdir(p))} :: fabs(p) && fclean(p) == p && p != "/" && nodir(R, b, d, fdir(p)) ==> unres(R, b, d, p)

define tb(f) = pay(f.reqCacher.backend)
define td(f) = pay(f.reqCacher.decrypter)
define tleaf(f, p, c, dir) = leaf(f.encryptedRoot, tb(f), td(f), p, c, dir)
define tnodir(f, p) = nodir(f.encryptedRoot, tb(f), td(f), p)
define tisdir(f, p) = isdirp(f.encryptedRoot, tb(f), td(f), p)
define tunres(f, p) = unres(f.encryptedRoot, tb(f), td(f), p)

# what the path cache of a tree may hold
uf fcroot(int) seq
uf fcback(int) int
uf fcdec(int) int
axiom forall s: int, k: seq, c: seq {okmap(s, k, c)} :: okmap(s, k, c) == leaf(fcroot(s), fcback(s), fcdec(s), k, c, true)

define wft(f) = f != nil && wfr(f.reqCacher) && closed(f.reqCacher.workQueue) == 0 && f.fastCache != nil && 1 <= f.fastCache.cacheSize && f.fastCache.cacheSize < 2^30
    && f.fsAccessor != nil && wf(f.cEnc)
    && fcroot(f.fastCache) == f.encryptedRoot && fcback(f.fastCache) == tb(f) && fcdec(f.fastCache) == td(f)

define qlist() = slice(@k_qd_base(0), @k_qd_off(0), @k_qd_len(0), "[]os.FileInfo")
# the directory c was read for: IV file and listing
define dirread(c) = !@k_qf_err(0) && @k_qf_path(0) == fjoin(c, "gocryptfs.diriv") && !@k_qd_err(0) && @k_qd_path(0) == c
define dirfail(c) = @k_qf_err(0) && @k_qf_path(0) == fjoin(c, "gocryptfs.diriv") || @k_qd_err(0) && @k_qd_path(0) == c
# the i-th name decryption of this call was asked for entry i of the listing, with the IV of the directory
define asked(i, n0) = @k_dn_name(n0 + i) == pureIface(qlist()[i], "Name") && @k_dn_iv(n0 + i) == @k_qf_bytes(0)

func (*filetree.FileTree).findInDir | f c name -> item err
  requires wft(f) && nolocks()
  let n0 = @k_dn_n(0)
  modifies nothing
  nopanic[C07,C10]
  terminates[C07]
  hint @k_dn_n(0) == n0 + ?i:int
  hint forall i: int {@k_dn_name(n0 + i)} :: 0 <= i && i < @k_dn_n(0) - n0 ==> asked(i, n0) && (@k_dn_err(n0 + i) || @k_dn_res(n0 + i) != name)
  hint nolocks()
  defines err == nil && item != nil && dirread(c) && (let i = @k_dn_n(0) - 1 - n0; 0 <= i && i < @k_qd_len(0) && item == qlist()[i] && asked(i, n0) && !@k_dn_err(n0 + i) && @k_dn_res(n0 + i) == name)
    ==> entry(tb(f), td(f), c, name, pureIface(item, "Name"), pureIface(item, "IsDir"))
  defines err != nil && (dirfail(c) || dirread(c) && @k_dn_n(0) == n0 + @k_qd_len(0) && (forall i: int {@k_dn_name(n0 + i)} :: 0 <= i && i < @k_qd_len(0) ==> asked(i, n0) && (@k_dn_err(n0 + i) || @k_dn_res(n0 + i) != name)))
    ==> missing(tb(f), td(f), c, name)
  ensures[C10,C11,C12,C07,C18,C01] "an entry of the directory whose name decrypts to the one asked for" err == nil ==> item != nil && entry(tb(f), td(f), c, name, pureIface(item, "Name"), pureIface(item, "IsDir"))
  ensures[C10,C11,C12] "fails only if there is none or the remote failed" err != nil ==> missing(tb(f), td(f), c, name)

ghost k_fp_c(int) seq
ghost k_fp_n(int) int
func (*filetree.FileTree).findPath | f p -> c err
  requires wft(f) && nolocks() && fabs(p)
  modifies nothing
  set @k_fp_c(0) == c
  set @k_fp_n(0) == @k_dn_n(0)
  nopanic[C07,C10]
  terminates[C07]
  decreases len(fclean(p))
  hint nolocks()
  hint let q = ?q:@string; fabs(q) && fclean(q) == q
  hint let q = ?q:@string; tunres(f, q) ==> tunres(f, fclean(p))
  hint let q = ?q:@string; let t = ?t:@[]string; if len(t) == 0 then q == fclean(p) else q == fdir(t[len(t) - 1])
  hint let q = ?q:@string; let t = ?t:@[]string; len(t) > 0 ==> (tnodir(f, q) ==> tunres(f, fclean(p)))
  hint let t = ?t:@[]string; len(t) > 0 ==> t[0] == fclean(p)
  hint let t = ?t:@[]string; forall j: int {t[j]} :: 0 <= j && j < len(t) ==> fabs(t[j]) && fclean(t[j]) == t[j] && t[j] != "/"
  hint let t = ?t:@[]string; forall j: int {t[j]} :: 0 < j && j < len(t) ==> t[j] == fdir(t[j - 1])
  hint let t = ?t:@[]string; forall j: int {t[j]} :: 0 <= j && j < len(t) ==> (tunres(f, t[j]) ==> tunres(f, fclean(p))) && (0 < j && tnodir(f, t[j]) ==> tunres(f, fclean(p)))
  hint let c = ?c:@string; let t = ?t:[]string; let i = ?i:@int; 0 - 1 <= i && i < len(t) && (if i < 0 then tleaf(f, fclean(p), c, true) else tleaf(f, fdir(t[i]), c, true))
  ensures nolocks()
  ensures[C10,C11,C12,C07] "the directory the path resolves to" err == nil ==> tleaf(f, fclean(p), c, true)
  ensures[C10,C11,C12] "fails only if the path does not resolve to a directory" err != nil ==> tunres(f, fclean(p)) || tnodir(f, fclean(p))

extern filetree.FSAccessor.Stat | b p -> r err
  modifies nothing
  set @k_fs_n(0) == @k_fs_n(0) + 1
  set @k_fs_path(0) == p
  set @k_fs_tag(0) == tag(r)
  set @k_fs_pay(0) == pay(r)
  set @k_fs_err(0) == (err != nil)
  ensures err == nil ==> r != nil
ghost k_fs_n(int) int
ghost k_fs_path(int) seq
ghost k_fs_tag(int) int
ghost k_fs_pay(int) int
ghost k_fs_err(int) bool

func (*filetree.FileTree).ReadFile | f path -> r err
  requires wft(f) && nolocks() && fabs(path)
  modifies nothing
  set @k_rfn(0) == @k_rfn(0) + 1
  set @k_rfpath(0) == path
  set @k_rfdata(0) == bytes(r)
  set @k_rferr(0) == (err != nil)
  nopanic[C07,C01,C10,C18]
  terminates[C07]
  ensures nolocks()
  ensures[C10] "opens the file the path resolves to" err == nil ==> tleaf(f, fclean(path), @k_qf_path(0), false) && !@k_qf_err(0)
  ensures[C10] "fails only if the path does not resolve to a file, the remote failed, or the content is not valid" err != nil ==>
    tisdir(f, fclean(path)) || tunres(f, fclean(path)) || tnodir(f, fdir(fclean(path)))
    || tleaf(f, fclean(path), @k_qf_path(0), false) && (@k_qf_err(0) || @k_df_err(0) && @k_df_in(0) == @k_qf_bytes(0))
  ensures[C01] "exactly the authenticated plaintext of the file opened" err == nil ==> okfile(aeadof(f.cEnc), f.cEnc.cryptoCore.IVLen, @k_qf_bytes(0)) && bytes(r) == plainfile(aeadof(f.cEnc), f.cEnc.cryptoCore.IVLen, @k_qf_bytes(0))
  ensures[C01] "no data on failure" err != nil ==> len(r) == 0

define psz(f, info) = psize(pureIface(info, "Size"), f.cEnc.plainBS, f.cEnc.cipherBS)

func (*filetree.FileTree).Stat | f path -> r err
  requires wft(f) && nolocks() && fabs(path)
  modifies nothing
  set @k_stn(0) == @k_stn(0) + 1
  set @k_stpath(0) == path
  set @k_sttag(0) == tag(r)
  set @k_stpay(0) == pay(r)
  set @k_sterr(0) == (err != nil)
  let ns = @k_fs_n(0)
  nopanic[C07,C12,C18]
  terminates[C07]
  ensures nolocks()
  ensures[C12,C10] "asks the remote about the object the path resolves to" err == nil ==> @k_fs_n(0) == ns + 1 && !@k_fs_err(0) && (tleaf(f, fclean(path), @k_fs_path(0), true) || tleaf(f, fclean(path), @k_fs_path(0), false))
  ensures[C12] "the requested name" err == nil ==> is(r, "filetree.plainFileInfo") && as(r, "filetree.plainFileInfo").name == fbase(fclean(path))
  ensures[C12] "the attributes of that object" err == nil ==> (let i = as(r, "filetree.plainFileInfo").FileInfo; tag(i) == @k_fs_tag(0) && pay(i) == @k_fs_pay(0))
  ensures[C12] "the plaintext size" err == nil ==> (let i = as(r, "filetree.plainFileInfo"); 0 <= pureIface(i.FileInfo, "Size") && pureIface(i.FileInfo, "Size") < 2^62 ==> i.size == psz(f, i.FileInfo))
  ensures[C12] "fails only if the path does not resolve or the remote failed" err != nil ==> tunres(f, fclean(path)) || tnodir(f, fdir(fclean(path)))
    || @k_fs_n(0) == ns + 1 && @k_fs_err(0) && (tleaf(f, fclean(path), @k_fs_path(0), true) || tleaf(f, fclean(path), @k_fs_path(0), false))
  ensures[C12] "nothing with an error" err != nil ==> r == nil

# what the listing has to show for entry i of the remote listing
define shown(x, i, n0, f) = is(x, "filetree.plainFileInfo") && (let p = as(x, "filetree.plainFileInfo"); p.FileInfo == qlist()[i] && p.name == @k_dn_res(n0 + i)
    && (0 <= pureIface(qlist()[i], "Size") && pureIface(qlist()[i], "Size") < 2^62 ==> p.size == psz(f, qlist()[i])))

func (*filetree.FileTree).ReadDir | f path -> r err
  requires wft(f) && nolocks() && fabs(path)
  modifies nothing
  set @k_rdn(0) == @k_rdn(0) + 1
  set @k_rdpath(0) == path
  set @k_rdbase(0) == base(r)
  set @k_rdoff(0) == off(r)
  set @k_rdlen(0) == len(r)
  set @k_rderr(0) == (err != nil)
  nopanic[C07,C11,C18]
  terminates[C07]
  hint nolocks()
  hint @k_dn_n(0) == @k_fp_n(0) + ?i:int
  hint forall i: int {@k_dn_name(@k_fp_n(0) + i)} :: 0 <= i && i < @k_dn_n(0) - @k_fp_n(0) ==> asked(i, @k_fp_n(0))
  hint @k_dn_okc(@k_dn_n(0)) >= @k_dn_okc(@k_fp_n(0))
  hint let r = deref(?l:*[]os.FileInfo); len(r) == @k_dn_okc(@k_dn_n(0)) - @k_dn_okc(@k_fp_n(0))
  hint let r = ?l:@[]os.FileInfo; len(r) == @k_dn_okc(@k_dn_n(0)) - @k_dn_okc(@k_fp_n(0))
  hint let r = deref(?l:*[]os.FileInfo); let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); 0 <= j && j < len(r))
  hint let r = ?l:@[]os.FileInfo; let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); 0 <= j && j < len(r))
  hint let r = deref(?l:*[]os.FileInfo); let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); is(r[j], "filetree.plainFileInfo"))
  hint let r = ?l:@[]os.FileInfo; let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); is(r[j], "filetree.plainFileInfo"))
  hint let r = deref(?l:*[]os.FileInfo); let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); as(r[j], "filetree.plainFileInfo").name == @k_dn_res(m + i))
  hint let r = ?l:@[]os.FileInfo; let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); as(r[j], "filetree.plainFileInfo").name == @k_dn_res(m + i))
  hint let r = deref(?l:*[]os.FileInfo); let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); as(r[j], "filetree.plainFileInfo").FileInfo == qlist()[i])
  hint let r = ?l:@[]os.FileInfo; let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); as(r[j], "filetree.plainFileInfo").FileInfo == qlist()[i])
  hint let r = deref(?l:*[]os.FileInfo); let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); shown(r[j], i, m, f))
  hint let r = ?l:@[]os.FileInfo; let m = @k_fp_n(0); forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_dn_n(0) - m && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); shown(r[j], i, m, f))
  ensures nolocks()
  ensures[C11] "lists the directory the path resolves to" err == nil ==> tleaf(f, fclean(path), @k_qd_path(0), true) && dirread(@k_qd_path(0))
  ensures[C11] "every entry of the remote listing is tried with the directory's IV" err == nil ==> (let m = @k_dn_n(0) - @k_qd_len(0); forall i: int {@k_dn_name(m + i)} :: 0 <= i && i < @k_qd_len(0) ==> asked(i, m))
  ensures[C11] "one entry for each that decrypts, in order" err == nil ==> (let m = @k_dn_n(0) - @k_qd_len(0); len(r) == @k_dn_okc(@k_dn_n(0)) - @k_dn_okc(m)
    && (forall i: int {@k_dn_err(m + i)} :: 0 <= i && i < @k_qd_len(0) && !@k_dn_err(m + i) ==> (let j = @k_dn_okc(m + i) - @k_dn_okc(m); 0 <= j && j < len(r) && shown(r[j], i, m, f))))
  ensures[C11] "fails only if the path does not resolve to a directory or the remote failed" err != nil ==> tunres(f, fclean(path)) || tnodir(f, fclean(path)) || tleaf(f, fclean(path), @k_fp_c(0), true) && dirfail(@k_fp_c(0))
  ensures[C11] "nothing with an error" err != nil ==> len(r) == 0

func (filetree.plainFileInfo).Name | p -> r
  modifies nothing
  nopanic[C07,C11,C12]
  ensures[C11,C12] "the decrypted name" r == p.name
func (filetree.plainFileInfo).Size | p -> r
  modifies nothing
  nopanic[C07,C11,C12]
  ensures[C11,C12] "the plaintext size" r == p.size
