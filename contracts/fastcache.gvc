# The path cache (filetree/fastcache.go)
# last use (store or successful lookup) of a path, in the order of the critical sections
ghost k_used(int, seq) int
ghost k_clock(int) int
# the cipher path that the plaintext path resolves to (given meaning in filetree.gvc)
uf okmap(int, seq, seq) bool

define held1(s, d) = dom(s.storage)[d.PlaintextPath] && s.storage[d.PlaintextPath] == d
define usedof(s, d) = @k_used(s, d.PlaintextPath)

define fcinv(s) = s.storage != nil && s.count == len(s.storage) && 0 <= s.count && s.count <= s.cacheSize
    && (s.head == nil) == (s.last == nil) && (s.head == nil) == (s.count == 0)
    && (s.head == nil ==> (forall k: seq {dom(s.storage)[k]} :: !dom(s.storage)[k]))
    && (s.head != nil ==> held1(s, s.head) && s.head.prev == nil && (forall k: seq {dom(s.storage)[k]} :: dom(s.storage)[k] && k != s.head.PlaintextPath ==> usedof(s, s.head) < @k_used(s, k)))
    && (s.last != nil ==> held1(s, s.last) && s.last.next == nil)
    && (forall k: seq {dom(s.storage)[k]} :: dom(s.storage)[k] ==> (let d = s.storage[k]; d != nil && live(d) && d.PlaintextPath == k && @k_used(s, k) <= @k_clock(s)
      && (if d.next == nil then d == s.last else held1(s, d.next) && d.next.prev == d && @k_used(s, k) < usedof(s, d.next))
      && (if d.prev == nil then d == s.head else held1(s, d.prev) && d.prev.next == d)))
    && (forall k: seq, j: seq {dom(s.storage)[k], dom(s.storage)[j]} :: dom(s.storage)[k] && dom(s.storage)[j] && k != j ==> @k_used(s, k) != @k_used(s, j)
      && (@k_used(s, k) < @k_used(s, j) ==> s.storage[k].next != nil && usedof(s, s.storage[k].next) <= @k_used(s, j)))

define fcres(s) = forall k: seq {dom(s.storage)[k]} :: dom(s.storage)[k] ==> okmap(s, k, s.storage[k].CiphertextPath)

guard[C13,C10,C11,C12,C07] filetree.FastCache.lock : storage, count, head, last ; deep filetree.DirMapping.* ; inv fcinv(s) && fcres(s)

func filetree.NewFastCache | n -> r
  requires 1 <= n && n < 2^30
  modifies nothing
  nopanic[C13,C07]
  ensures "a new cache" r != nil && fresh(r) && r.cacheSize == n
  ensures[C13,C10,C07] "a new, empty cache of that capacity" r != nil && fresh(r) && fcinv(r) && r.cacheSize == n && (forall k: seq {dom(r.storage)[k]} :: !dom(r.storage)[k])

func (*filetree.FastCache).Find | f p -> d found
  requires f != nil && 1 <= f.cacheSize && f.cacheSize < 2^30 && @held(addr(f.lock)) == 0
  let had = has(f.storage, p)
  let c = f.storage[p].CiphertextPath
  opt atomic
  opt home C13,C10,C11,C12,C07
  modifies f.head, f.last, allof("filetree.DirMapping.next"), allof("filetree.DirMapping.prev"), @held(addr(f.lock))
  atrelease @k_used(f, p) == if had then @k_clock(f) + 1 else @k_used(f, p)
  atrelease @k_clock(f) == @k_clock(f) + 1
  nopanic[C13,C07]
  ensures @held(addr(f.lock)) == 0
  ensures[C13,C10,C11,C12] "found exactly if held" found == had
  ensures[C13,C10,C11,C12] "the mapping most recently stored" found ==> d.PlaintextPath == p && d.CiphertextPath == c
  ensures[C10,C11,C12,C07] "one that the tree stored" found ==> okmap(f, p, d.CiphertextPath)
  ensures[C13] "contents unchanged" f.storage == old(f.storage) && (forall k: seq {dom(f.storage)[k]} :: dom(f.storage)[k] == old(dom(f.storage)[k])
    && (dom(f.storage)[k] ==> f.storage[k].CiphertextPath == old(f.storage[k].CiphertextPath)))

func (*filetree.FastCache).Clear | f
  requires f != nil && 1 <= f.cacheSize && f.cacheSize < 2^30 && @held(addr(f.lock)) == 0
  opt atomic
  opt home C13,C10,C11,C12,C07
  modifies f.head, f.last, f.storage, f.count, @held(addr(f.lock))
  nopanic[C13,C07]
  ensures @held(addr(f.lock)) == 0
  ensures[C13,C10,C11,C12] "empty afterwards" forall k: seq {dom(f.storage)[k]} :: !dom(f.storage)[k]

func (*filetree.FastCache).Store | f p c
  requires f != nil && 1 <= f.cacheSize && f.cacheSize < 2^30 && @held(addr(f.lock)) == 0
  requires[C10,C11,C12,C13,C07] "only resolutions of that very path are stored" okmap(f, p, c)
  let had = has(f.storage, p)
  let full = f.count >= f.cacheSize
  let lru = f.head.PlaintextPath
  opt atomic
  opt home C13,C10,C11,C12,C07
  modifies f.head, f.last, f.count, map(f.storage), allof("filetree.DirMapping.*"), @held(addr(f.lock))
  atrelease @k_clock(f) == @k_clock(f) + 1
  atrelease @k_used(f, p) == @k_clock(f)
  nopanic[C13,C07]
  ensures @held(addr(f.lock)) == 0
  ensures[C13] "the path maps to what was stored" dom(f.storage)[p] && f.storage[p].CiphertextPath == c
  ensures[C13] "within capacity" len(f.storage) <= f.cacheSize
  ensures[C13] "a path already held, or room left: every other entry is kept, none appears" had || !full ==> (forall k: seq {dom(f.storage)[k]} :: k != p ==> dom(f.storage)[k] == old(dom(f.storage)[k])
    && (dom(f.storage)[k] ==> f.storage[k].CiphertextPath == old(f.storage[k].CiphertextPath)))
  ensures[C13] "full: the least recently used entry goes" !had && full ==> lru != p && old(dom(f.storage)[lru]) && (forall k: seq {dom(f.storage)[k]} :: old(dom(f.storage)[k]) && k != lru ==> old(@k_used(f, lru)) < old(@k_used(f, k)))
  ensures[C13] "full: exactly that entry goes" !had && full ==> (forall k: seq {dom(f.storage)[k]} :: k != p ==> dom(f.storage)[k] == (k != lru && old(dom(f.storage)[k]))
    && (dom(f.storage)[k] ==> f.storage[k].CiphertextPath == old(f.storage[k].CiphertextPath)))
