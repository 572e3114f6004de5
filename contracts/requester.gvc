# Caching requester (requester/)
# kind of a cache: 1 files, 2 directories, 3 names; owner: backend or decrypter
uf kindof(int) int
uf ownerof(int) int
uf nlock(int) int
# the backend answered ReadFile(p) / ReadDir(p) with that slice, without error
uf rfok(int, seq, int, int, int) bool
uf rdok(int, seq, int, int, int) bool
# the decrypter answered DecryptName for the pair with that cache key
uf dnok(int, seq, seq) bool
define ckey(s, b) = s + "+" + hexf(b)
lemma[C14,C15] "the key of a (name, IV) pair is unique to it" forall s: seq, b: seq, t: seq, d: seq :: mark(hexf(b)[len(t) - len(s) - 1]) && mark(ckey(s, b)[len(t)]) && mark(hexf(d)[len(s) - len(t) - 1]) && mark(ckey(t, d)[len(s)])
    && ckey(s, b) == ckey(t, d) ==> len(s) == len(t) && s == sub(ckey(t, d), 0, len(t)) && hexf(b) == sub(ckey(t, d), len(t) + 1, 2 * len(d)) && s == t && hexf(b) == hexf(d) && unhex(hexf(b)) == unhex(hexf(d)) && b == d

define nolocks() = forall x: int {@held(x)} :: @held(x) == 0

define okdata(s, k, d) = (kindof(s) == 1 ==> is(d, "[]byte") && (let x = as(d, "[]byte"); rfok(ownerof(s), k, base(x), off(x), len(x))))
    && (kindof(s) == 2 ==> is(d, "[]os.FileInfo") && (let x = as(d, "[]os.FileInfo"); rdok(ownerof(s), k, base(x), off(x), len(x))))
    && (kindof(s) == 3 ==> is(d, "string") && dnok(ownerof(s), k, as(d, "string")))
define okentry(s, k, e) = (e.data != nil ==> e.err == nil && okdata(s, k, e.data)) && (e.data == nil && e.err == nil ==> 1 <= e.lockerNum && e.lockerNum < nlock(s))

guard[C14,C15,C16,C07,C10,C11,C12,C18,C01] requester.syncCache.lock : m ; inv s.m != nil && (forall k: seq {dom(s.m)[k]} :: dom(s.m)[k] ==> okentry(s, k, s.m[k]))

ghost k_cur(int) int
ghost k_setn(int) int
ghost k_bcsets(int) int
ghost k_goi_done(int) bool
ghost k_goi_lock(int) int
ghost k_gn(int) int
ghost k_gfound(int) bool
ghost k_gdone(int) bool
ghost k_glock(int) int
ghost k_ticket(int) bool

func (*requester.syncCache).Get | s key -> r found
  requires s != nil && @held(addr(s.lock)) == 0
  modifies nothing
  set @k_gn(0) == @k_gn(0) + 1
  set @k_gfound(0) == found
  set @k_gdone(0) == (r.data != nil || r.err != nil)
  set @k_glock(0) == r.lockerNum
  ensures[C14,C15,C16,C07,C10,C11,C12,C18,C01] "what is found is an answer to that key, or in progress" found ==> okentry(s, key, r)
  ensures[C14,C15,C16,C07,C10,C11,C12,C18,C01] "nothing otherwise" !found ==> r.data == nil && r.err == nil && r.lockerNum == 0
  nopanic[C16,C07]

func (*requester.syncCache).GetOrInsert | s key value -> r found
  requires s != nil && @held(addr(s.lock)) == 0
  requires[C14,C15,C16,C07,C10,C11,C12,C18,C01] okentry(s, key, value)
  modifies nothing
  set @k_goi_done(0) == (found && (r.data != nil || r.err != nil))
  set @k_goi_lock(0) == (if found then r.lockerNum else value.lockerNum)
  ensures[C14,C15,C16,C07,C10,C11,C12,C18,C01] "what is found is an answer to that key, or in progress" found ==> okentry(s, key, r)
  nopanic[C16,C07]

func (*requester.syncCache).Set | s key value
  requires s != nil && @held(addr(s.lock)) == 0
  requires[C14,C15,C16,C07,C10,C11,C12,C18,C01] "only answers to that very key are stored" okentry(s, key, value)
  modifies nothing
  set @k_setn(0) == @k_setn(0) + 1
  nopanic[C16,C07]

func (*requester.syncCache).Delete | s key
  requires s != nil && @held(addr(s.lock)) == 0
  modifies nothing
  nopanic[C16,C07]

func (*requester.syncCache).ClearCache | s
  requires s != nil && @held(addr(s.lock)) == 0
  modifies nothing
  hint s.m != nil && (forall k: seq {dom(s.m)[k]} :: dom(s.m)[k] ==> okentry(s, k, s.m[k]))
  nopanic[C16,C07]

property C14 (*requester.syncCache).ClearCache ; (*requester.syncCache).Delete
property C15 (*requester.syncCache).Delete

func requester.complexKey | s b -> r
  modifies nothing
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  ensures[C14,C15,C16,C07,C10,C11,C12,C18,C01] "name, separator, full IV in hex" r == ckey(s, bytes(b))

extern requester.Backend.ReadFile | b p -> r err
  modifies nothing
  ensures err == nil ==> rfok(pay(b), p, base(r), off(r), len(r))
extern requester.Backend.ReadDir | b p -> r err
  modifies nothing
  ensures err == nil ==> rdok(pay(b), p, base(r), off(r), len(r))
extern requester.Decrypter.DecryptName | d name iv -> r err
  modifies nothing
  ensures err == nil ==> dnok(pay(d), ckey(name, bytes(iv)), r)

define wfcache(s, kind, owner, n) = s != nil && kindof(s) == kind && ownerof(s) == owner && nlock(s) == n
define wfr(r) = r != nil && r.backend != nil && r.decrypter != nil && r.workQueue != nil
    && wfcache(r.fileCache, 1, pay(r.backend), len(r.lockers)) && wfcache(r.dirCache, 2, pay(r.backend), len(r.lockers)) && wfcache(r.decryptCache, 3, pay(r.decrypter), len(r.lockers))
    && r.fileCache != r.dirCache && r.fileCache != r.decryptCache && r.dirCache != r.decryptCache
    && (forall i: int {r.lockers[i].lockerNum} {r.lockers[i].cv} :: 0 <= i && i < len(r.lockers) ==> r.lockers[i].lockerNum == i && r.lockers[i].cv != nil
      && is(r.lockers[i].cv.L, "*sync.Mutex") && pay(r.lockers[i].cv.L) == addr(r.lockers[i].mtx))

gives requester.work v.respChan
message[C16,C07] requester.work "the answer cannot block" chancap(v.respChan) >= 1
message[C16,C07] requester.work "answered to a channel of its own" v.respChan != nil
message[C14,C16] requester.work "a known kind of request" 1 <= v.requestType && v.requestType <= 3
onrecv[C16] requester.work "every request taken from the queue was answered exactly once" @k_cur(0) == 0 || sent(@k_cur(0)) + closed(@k_cur(0)) == 1
onrecv[C16] requester.work "no lock is held when going back to the queue" nolocks()
onrecv[C16] requester.work "waiters were woken after the last outcome was published" @k_bcsets(0) == @k_setn(0)
onsend[C16] *requester.workTicket "the answer cannot block" chancap(ch) >= 1 && sent(ch) == 1
onsend[C15,C16] *requester.workTicket "a ticket is for a request in progress by its holder" v != nil && !@k_goi_done(0) && v.lockerNum == @k_goi_lock(0)
onclose[C16] *requester.workTicket "closed only if the outcome is cached" @k_goi_done(0) && sent(ch) == 0

func (*requester.Requester).worker | r num
  requires wfr(r) && 1 <= num && num < len(r.lockers)
  assume nolocks() && @k_cur(0) == 0 && @k_bcsets(0) == @k_setn(0)
  modifies anything
  hint nolocks()
  hint @k_cur(0) == 0 || sent(@k_cur(0)) + closed(@k_cur(0)) == 1
  hint @k_bcsets(0) == @k_setn(0)
  nopanic[C16,C07]
  ensures[C16] "answered before leaving" @k_cur(0) == 0 || sent(@k_cur(0)) + closed(@k_cur(0)) == 1
property C14 (*requester.Requester).worker
property C15 (*requester.Requester).worker

define oktick(t) = t != nil && t.cv != nil && is(t.cv.L, "*sync.Mutex") && pay(t.cv.L) == addr(t.mtx)
message[C14,C15,C16,C07,C10,C11,C12,C18,C01] *requester.workTicket "a ticket of the requester" oktick(v)

func (*requester.workTicket).Lock | wt
  requires wt != nil && @held(addr(wt.mtx)) == 0
  modifies @held(addr(wt.mtx))
  set @k_gfound(0) == false
  ensures @held(addr(wt.mtx)) == 2
  nopanic[C16,C07]

func (*requester.workTicket).Unlock | wt
  requires wt != nil && @held(addr(wt.mtx)) == 2
  modifies @held(addr(wt.mtx))
  ensures @held(addr(wt.mtx)) == 0
  nopanic[C16,C07]

func (*requester.workTicket).Wait | wt
  requires oktick(wt) && @held(addr(wt.mtx)) == 2
  requires[C16] "waits only while the request is in progress by the worker of this ticket" @k_gfound(0) && !@k_gdone(0) && @k_glock(0) == wt.lockerNum && wt.lockerNum != 0
  modifies nothing
  nopanic[C16,C07]

define cacheof(r, kind) = if kind == 1 then r.fileCache else if kind == 2 then r.dirCache else r.decryptCache

func (*requester.Requester).makeRequest | r kind arg1 arg2 -> d err
  requires wfr(r) && nolocks() && closed(r.workQueue) == 0
  requires[C14,C15,C16,C07,C10,C11,C12,C18,C01] 1 <= kind && kind <= 3
  let key = if kind == 3 then ckey(arg1, bytes(arg2)) else arg1
  opt home C14,C15,C16,C07
  opt nounroll
  cases kind : 1, 2, 3
  modifies nothing
  hint nolocks()
  hint closed(r.workQueue) == 0
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  ensures[C14,C15,C16,C07,C10,C11,C12,C18,C01] "an answer to exactly this request" err == nil ==> d != nil && okdata(cacheof(r, kind), key, d)
  ensures[C15,C16,C07,C10,C11,C12,C18,C01] "no data with a failure" err != nil ==> d == nil
  ensures[C15] "no failure from the past: one found in the cache was produced while this request waited" err != nil ==> fresh(err) || @k_ticket(0)

ghost k_qf_path(int) seq
ghost k_qf_bytes(int) seq
ghost k_qf_err(int) bool
ghost k_qd_path(int) seq
ghost k_qd_base(int) int
ghost k_qd_off(int) int
ghost k_qd_len(int) int
ghost k_qd_err(int) bool
ghost k_dn_n(int) int
ghost k_dn_name(int) seq
ghost k_dn_iv(int) seq
ghost k_dn_res(int) seq
ghost k_dn_err(int) bool
ghost k_dn_okc(int) int

func (*requester.Requester).ReadFile | r p -> b err
  requires wfr(r) && nolocks() && closed(r.workQueue) == 0
  modifies nothing
  set @k_qf_path(0) == p
  set @k_qf_bytes(0) == bytes(b)
  set @k_qf_err(0) == (err != nil)
  defines len(b) < 2^48
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  ensures[C14,C15] "what the backend answered for this path" err == nil ==> rfok(pay(r.backend), p, base(b), off(b), len(b))
  ensures[C15] "no data with a failure" err != nil ==> len(b) == 0

func (*requester.Requester).ReadDir | r p -> b err
  requires wfr(r) && nolocks() && closed(r.workQueue) == 0
  modifies nothing
  set @k_qd_path(0) == p
  set @k_qd_base(0) == base(b)
  set @k_qd_off(0) == off(b)
  set @k_qd_len(0) == len(b)
  set @k_qd_err(0) == (err != nil)
  defines (forall i: int {b[i]} :: 0 <= i && i < len(b) ==> b[i] != nil) && len(b) < 2^48
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  ensures[C14,C15] "what the backend answered for this path" err == nil ==> rdok(pay(r.backend), p, base(b), off(b), len(b))
  ensures[C15] "no data with a failure" err != nil ==> len(b) == 0

func (*requester.Requester).DecryptName | r name iv -> s err
  requires wfr(r) && nolocks() && closed(r.workQueue) == 0
  modifies nothing
  set @k_dn_name(@k_dn_n(0)) == name
  set @k_dn_iv(@k_dn_n(0)) == bytes(iv)
  set @k_dn_res(@k_dn_n(0)) == s
  set @k_dn_err(@k_dn_n(0)) == (err != nil)
  set @k_dn_okc(@k_dn_n(0) + 1) == @k_dn_okc(@k_dn_n(0)) + (if err == nil then 1 else 0)
  set @k_dn_n(0) == @k_dn_n(0) + 1
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  ensures[C14,C15] "what the decrypter answered for this name and IV" err == nil ==> dnok(pay(r.decrypter), ckey(name, bytes(iv)), s)
  ensures[C15] "no data with a failure" err != nil ==> len(s) == 0

func requester.newSyncCache | n -> s
  requires 0 <= n && n < 2^40
  modifies nothing
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  ensures s != nil && fresh(s) && s.m != nil
  ensures[C14,C15,C16,C07,C10,C11,C12,C18,C01] "starts empty" forall k: seq {dom(s.m)[k]} :: !dom(s.m)[k]

func requester.New | n b d -> r
  requires 0 <= n && n < 2^30 && b != nil && d != nil
  modifies nothing
  nopanic[C16,C07,C10,C11,C12,C18,C01]
  opt loopalloc yes
  hint let l = ?l:[]requester.workTicket; forall i: int {l[i].lockerNum} :: 0 <= i && i < ?k:int ==> l[i].lockerNum == i
  hint let l = ?l:[]requester.workTicket; forall i: int {l[i].lockerNum} :: 0 <= i && i <= ?k:int ==> l[i].lockerNum == i
  hint let l = ?l:[]requester.workTicket; forall i: int {l[i].cv} :: 0 <= i && i < ?k:int ==> l[i].cv != nil && live(l[i].cv)
  hint let l = ?l:[]requester.workTicket; forall i: int {l[i].cv} :: 0 <= i && i <= ?k:int ==> l[i].cv != nil && live(l[i].cv)
  hint let l = ?l:[]requester.workTicket; forall i: int {l[i].cv} :: 0 <= i && i < ?k:int ==> l[i].cv != nil && live(l[i].cv) && is(l[i].cv.L, "*sync.Mutex") && pay(l[i].cv.L) == addr(l[i].mtx)
  hint let l = ?l:[]requester.workTicket; forall i: int {l[i].cv} :: 0 <= i && i <= ?k:int ==> l[i].cv != nil && live(l[i].cv) && is(l[i].cv.L, "*sync.Mutex") && pay(l[i].cv.L) == addr(l[i].mtx)
  defines wfcache(r.fileCache, 1, pay(b), n + 1) && wfcache(r.dirCache, 2, pay(b), n + 1) && wfcache(r.decryptCache, 3, pay(d), n + 1)
  ensures "separate new caches" fresh(r) && fresh(r.fileCache) && fresh(r.dirCache) && fresh(r.decryptCache)
    && r.fileCache != r.dirCache && r.fileCache != r.decryptCache && r.dirCache != r.decryptCache
  ensures "a well-formed requester" wfr(r) && r.backend == b && r.decrypter == d && r.numWorkers == n && len(r.lockers) == n + 1 && closed(r.workQueue) == 0

func (*requester.Requester).Start | r
  requires wfr(r) && r.numWorkers + 1 <= len(r.lockers)
  modifies nothing
  nopanic[C16,C07,C10,C11,C12,C18,C01]

func (*requester.Requester).ClearCache | r
  requires wfr(r) && nolocks()
  modifies nothing
  nopanic[C16,C07]
property C14 (*requester.Requester).ClearCache ; requester.New ; (*requester.Requester).Start
property C15 requester.New ; (*requester.Requester).Start
property C16 requester.New ; (*requester.Requester).Start
