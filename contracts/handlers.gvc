# SFTP handlers (handlers/decrypt.go, handlers/proxy.go)

ghost k_rfn(int) int
ghost k_rfpath(int) seq
ghost k_rfdata(int) seq
ghost k_rferr(int) bool
ghost k_rdn(int) int
ghost k_rdpath(int) seq
ghost k_rdbase(int) int
ghost k_rdoff(int) int
ghost k_rdlen(int) int
ghost k_rderr(int) bool
ghost k_stn(int) int
ghost k_stpath(int) seq
ghost k_sttag(int) int
ghost k_stpay(int) int
ghost k_sterr(int) bool

func (*handlers.decrypt).Fileread | p req -> r err
  requires p != nil && req != nil && wft(p.ft) && nolocks() && fabs(req.Filepath)
  let n = @k_rfn(0)
  modifies nothing
  nopanic[C18,C07]
  ensures[C18] "reads exactly the requested path, once" @k_rfn(0) == n + 1 && @k_rfpath(0) == old(req.Filepath)
  ensures[C18] "serves what was read, from its start" err == nil ==> is(r, "*bytes.Reader") && bytes(as(r, "*bytes.Reader").s) == @k_rfdata(0) && as(r, "*bytes.Reader").i == 0
  ensures[C18] "fails exactly when the read fails" (err != nil) == @k_rferr(0)
  ensures[C18] "no reader on failure" err != nil ==> r == nil

func (*handlers.decrypt).Filewrite | p req -> w err
  requires p != nil && req != nil
  modifies nothing
  nopanic[C18,C07]
  ensures[C18] "writing is refused" err != nil && w == nil

func (*handlers.decrypt).Filecmd | p req -> err
  requires p != nil && req != nil
  modifies nothing
  nopanic[C18,C07]
  ensures[C18] "changes are refused"
    let m = req.Method; m == "Setstat" || m == "Rename" || m == "Rmdir" || m == "Remove" || m == "Mkdir" || m == "Symlink" ==> err != nil

func (*handlers.decrypt).Filelist | p req -> l err
  requires p != nil && req != nil && wft(p.ft) && nolocks() && fabs(req.Filepath)
  let nd = @k_rdn(0)
  let ns = @k_stn(0)
  let m = req.Method
  let path = req.Filepath
  modifies nothing
  nopanic[C18,C07]
  ensures[C18] "a listing is the listing of exactly that path" m == "List" ==> @k_rdn(0) == nd + 1 && @k_stn(0) == ns && @k_rdpath(0) == path && (err != nil) == @k_rderr(0)
    && (err == nil ==> is(l, "handlers.listerat") && (let s = as(l, "handlers.listerat"); len(s) == @k_rdlen(0) && (len(s) > 0 ==> base(s) == @k_rdbase(0) && off(s) == @k_rdoff(0))))
  ensures[C18] "a stat is the stat of exactly that path" m == "Stat" ==> @k_stn(0) == ns + 1 && @k_rdn(0) == nd && @k_stpath(0) == path && (err != nil) == @k_sterr(0)
    && (err == nil ==> is(l, "handlers.listerat") && (let s = as(l, "handlers.listerat"); len(s) == 1 && tag(s[0]) == @k_sttag(0) && pay(s[0]) == @k_stpay(0)))
  ensures[C18] "links are not followed" m == "Readlink" ==> err != nil
  ensures[C18] "nothing on failure" err != nil ==> l == nil

func (handlers.listerat).ListAt | f ls off -> n err
  requires off >= 0 && len(ls) > 0
  requires base(ls) != base(f)
  modifies elems(ls)
  nopanic[C07,C19]
  ensures[C19] "as many entries as are left, up to the page size" n == min(len(ls), max(0, len(f) - off))
  ensures[C19] "the entries from the offset on, in order" forall i: int :: 0 <= i && i < n ==> ls[i] == old(f[off + i])
  ensures[C19] "end of listing exactly when the page could not be filled" (n < len(ls) ==> err == extglobal("io.EOF")) && (n == len(ls) ==> err == nil)
  ensures[C19] "the listing itself is not altered" forall i: int :: 0 <= i && i < len(f) ==> f[i] == old(f[i])

lemma[C19] "pages advance to the next undelivered entry, and a page that is not full ends the listing" forall off: int, k: int, len: int ::
    0 <= off && off <= len && k > 0 ==> (let n = min(k, max(0, len - off)); off + n <= len && (n < k ==> off + n == len) && (off < len ==> n > 0))

# the reference implementation
func (*handlers.proxy).Filewrite | p req -> w err
  requires p != nil && req != nil
  modifies nothing
  nopanic[C18]
  ensures[C18] "writing is refused" err != nil && w == nil

func (*handlers.proxy).Filecmd | p req -> err
  requires p != nil && req != nil
  modifies nothing
  nopanic[C18]
  ensures[C18] "changes are refused"
    let m = req.Method; m == "Setstat" || m == "Rename" || m == "Rmdir" || m == "Remove" || m == "Mkdir" || m == "Symlink" ==> err != nil
