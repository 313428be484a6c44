// Doubly linked lists: the sequence a list represents.
module list datastruct
private List.length =F:datastruct.List.head =F:datastruct.List.tail =F:datastruct.listNode.next =F:datastruct.listNode.prev =F:datastruct.listNode.value =G:datastruct.List.nodes =GV:lown =GV:lpos
private List.seq List.lo

// the values are seq[lo], ..., seq[lo+length-1], held by the nodes nodes[lo], ...
ghost List.seq [int]string
ghost List.lo int
ghost List.nodes [int]int
ghostvar lown [int]int
ghostvar lpos [int]int

def hi(l *List) int = l.lo + l.length
def at(l *List, i int) string = l.seq[l.lo + i]
def nd(r int) *listNode = obj("*listNode", r)
def inl(l *List, i int) bool = l.lo <= i < hi(l)
def npos(l *List, i int) int = if i < 0 then i + l.length else i

assume @memory forall l *List {l.length} :: l.length <= 1152921504606846976

invariant @shape forall l *List {l.length} :: l.length >= 0 && (l.length == 0 ==> ref(l.head) == 0 && ref(l.tail) == 0) && (l.length > 0 ==> ref(l.head) == l.nodes[l.lo] && ref(l.tail) == l.nodes[hi(l) - 1])
invariant @nodes forall l *List, i int {l.nodes[i]} :: inl(l, i) ==> 0 < l.nodes[i] && allocated(nd(l.nodes[i])) && lown[l.nodes[i]] == ref(l) && lpos[l.nodes[i]] == i && nd(l.nodes[i]).value == l.seq[i]
invariant @next forall l *List, i int {nd(l.nodes[i]).next} :: inl(l, i) ==> ref(nd(l.nodes[i]).next) == (if i + 1 < hi(l) then l.nodes[i + 1] else 0)
invariant @prev forall l *List, i int {nd(l.nodes[i]).prev} :: inl(l, i) ==> ref(nd(l.nodes[i]).prev) == (if l.lo < i then l.nodes[i - 1] else 0)

func datastruct.List.LPush
props C01
requires 0 < ref(l)
modifies List.length[l], List.seq[l], List.lo[l]
witness l.nodes = old(l.nodes)[old(l.lo) - 1 := ref(l.head)]
witness lown = old(lown)[ref(l.head) := ref(l)]
witness lpos = old(lpos)[ref(l.head) := old(l.lo) - 1]
update l.lo = old(l.lo) - 1
update l.seq = old(l.seq)[old(l.lo) - 1 := val]
ensures l.length == old(l.length) + 1

func datastruct.List.RPush
props C01
requires 0 < ref(l)
modifies List.length[l], List.seq[l]
witness l.nodes = old(l.nodes)[old(hi(l)) := ref(l.tail)]
witness lown = old(lown)[ref(l.tail) := ref(l)]
witness lpos = old(lpos)[ref(l.tail) := old(hi(l))]
update l.seq = old(l.seq)[old(hi(l)) := val]
ensures l.length == old(l.length) + 1

func datastruct.List.LPop
props C01
requires 0 < ref(l)
modifies List.length[l], List.lo[l]
update l.lo = if old(l.length) > 0 then old(l.lo) + 1 else old(l.lo)
ensures ok == (old(l.length) > 0)
ensures ok ==> val == old(at(l, 0)) && l.length == old(l.length) - 1
ensures !ok ==> l.length == 0

func datastruct.List.RPop
props C01
requires 0 < ref(l)
modifies List.length[l]
ensures ok == (old(l.length) > 0)
ensures ok ==> val == old(at(l, l.length - 1)) && l.length == old(l.length) - 1
ensures !ok ==> l.length == 0

// translated and clamped bounds of LRANGE, and the number of elements between them
def rfrom(n int, start int) int = if start >= 0 then start else if start + n < 0 then 0 else start + n
def rto(n int, stop int) int = let e = (if stop < 0 then stop + n else stop) in if e >= n then n - 1 else e
def rcount(n int, start int, stop int) int = if rto(n, stop) < rfrom(n, start) then 0 else rto(n, stop) - rfrom(n, start) + 1

func datastruct.List.LRange
props C02
requires 0 < ref(l)
ensures len(values) == rcount(l.length, start, stop)
ensures forall i int {values[i]} :: 0 <= i < len(values) ==> values[i] == at(l, rfrom(l.length, start) + i)
ensures len(values) == 0 || fresh(values)
loop 0 invariant 0 <= idx <= stop + 1 && stop < l.length && 0 <= start && start <= stop + 1
loop 0 invariant ref(head) == (if idx < l.length then l.nodes[l.lo + idx] else 0)
loop 0 invariant len(values) == (if idx <= start then 0 else idx - start) && (len(values) == 0 || fresh(values))
loop 0 invariant forall i int {values[i]} :: 0 <= i < len(values) ==> values[i] == at(l, start + i)
loop 0 decreases stop + 1 - idx

func datastruct.List.lIndexNode
requires 0 < ref(l)
ensures ref(result) == (if 0 <= npos(l, i) < l.length then l.nodes[l.lo + npos(l, i)] else 0)
loop 0 invariant 0 <= i < l.length && ref(cur) == l.nodes[l.lo + idx] && 0 <= idx < l.length
loop 0 invariant if reverse then i <= idx else idx <= i
loop 0 decreases if reverse then idx - i else i - idx

func datastruct.List.LIndex
props C02
requires 0 < ref(l)
ensures result1 == (0 <= npos(l, i) < l.length)
ensures result1 ==> result0 == at(l, npos(l, i))

func datastruct.List.LSet
props C02
requires 0 < ref(l)
modifies List.seq[l]
ensures result == (0 <= npos(l, i) < l.length)
update l.seq = if 0 <= npos(l, i) < l.length then old(l.seq)[l.lo + npos(l, i) := val] else old(l.seq)

// position of the first v among the first n elements of a from offset o; -1 if none
rec first(a [int]string, o int, n int, v string) int = if n <= 0 then 0 - 1 else let p = first(a, o, n - 1, v) in if p >= 0 then p else if a[o + n - 1] == v then n - 1 else 0 - 1
def firstIn(l *List, v string) int = first(l.seq, l.lo, l.length, v)
lemma first_range n 0 : forall a [int]string, o int, n int, v string {first(a, o, n, v)} :: first(a, o, n, v) < 0 && first(a, o, n, v) == 0 - 1 || 0 <= first(a, o, n, v) < n && a[o + first(a, o, n, v)] == v
// once found, the position stays
lemma first_stays n 0 : forall a [int]string, o int, n int, v string, m int {first(a, o, n, v), first(a, o, m, v)} :: 0 <= m <= n && first(a, o, m, v) >= 0 ==> first(a, o, n, v) == first(a, o, m, v)

func datastruct.List.findNode
requires 0 < ref(l)
ensures ref(result) == (if firstIn(l, val) >= 0 then l.nodes[l.lo + firstIn(l, val)] else 0)
loop 0 ghost j int = 0
loop 0 invariant 0 <= j <= l.length && first(l.seq, l.lo, j, val) < 0
loop 0 invariant ref(cur) == (if j < l.length then l.nodes[l.lo + j] else 0)
loop 0 lemma l.seq[l.lo + j] == val ==> first(l.seq, l.lo, j + 1, val) == j
loop 0 step j = j + 1
loop 0 decreases l.length - j

// a with v put in at position p, later elements moved up
func datastruct.List.LInsert
props C03
requires 0 < ref(l)
modifies List.length[l], List.seq[l]
ensures result == (old(firstIn(l, target)) >= 0)
ensures l.length == old(l.length) + (if result && flag != 0 then 1 else 0)
witness l.nodes = let k = l.lo + old(firstIn(l, target)) in let p = (if flag > 0 then k + 1 else k) in let nn = (if flag > 0 then ref(nd(old(l.nodes)[k]).next) else ref(nd(old(l.nodes)[k]).prev)) in if result && flag != 0 then (lambda i int :: if i < p then old(l.nodes)[i] else if i == p then nn else old(l.nodes)[i - 1]) else old(l.nodes)
witness lown = let k = l.lo + old(firstIn(l, target)) in let nn = (if flag > 0 then ref(nd(old(l.nodes)[k]).next) else ref(nd(old(l.nodes)[k]).prev)) in if result && flag != 0 then old(lown)[nn := ref(l)] else old(lown)
witness lpos = let k = l.lo + old(firstIn(l, target)) in let p = (if flag > 0 then k + 1 else k) in let nn = (if flag > 0 then ref(nd(old(l.nodes)[k]).next) else ref(nd(old(l.nodes)[k]).prev)) in if result && flag != 0 then (lambda r int :: if r == nn then p else if old(lown)[r] == ref(l) && old(lpos)[r] >= p then old(lpos)[r] + 1 else old(lpos)[r]) else old(lpos)
update l.seq = let p = l.lo + old(firstIn(l, target)) in if !result then old(l.seq) else if flag == 0 then old(l.seq)[p := newValue] else if flag > 0 then (lambda i int :: if i <= p then old(l.seq)[i] else if i == p + 1 then newValue else old(l.seq)[i - 1]) else (lambda i int :: if i < p then old(l.seq)[i] else if i == p then newValue else old(l.seq)[i - 1])

// occurrences of v among the first n elements of a from offset o
rec occ(a [int]string, o int, n int, v string) int = if n <= 0 then 0 else occ(a, o, n - 1, v) + (if a[o + n - 1] == v then 1 else 0)
lemma occ_range n 0 : forall a [int]string, o int, n int, v string {occ(a, o, n, v)} :: 0 <= occ(a, o, n, v) && (n >= 0 ==> occ(a, o, n, v) <= n)
lemma occ_mono n 0 : forall a [int]string, o int, n int, v string, m int {occ(a, o, n, v), occ(a, o, m, v)} :: m <= n ==> occ(a, o, m, v) <= occ(a, o, n, v) && (0 <= m < n && a[o + m] == v ==> occ(a, o, m, v) < occ(a, o, n, v))
lemma occ_gap n 0 : forall a [int]string, o int, n int, v string, m int {occ(a, o, n, v), occ(a, o, m, v)} :: m <= n && (0 <= m || n <= 0) ==> occ(a, o, n, v) - occ(a, o, m, v) <= n - m && (m < n && a[o + m] != v ==> occ(a, o, n, v) - occ(a, o, m, v) < n - m)
def min2(a int, b int) int = if a <= b then a else b
def max2(a int, b int) int = if a >= b then a else b
def occIn(l *List, v string) int = occ(l.seq, l.lo, l.length, v)

// removing the first c occurrences: element i goes when it is one of them, others move down past those gone before them
def goneHead(a [int]string, o int, i int, v string, c int) bool = a[o + i] == v && occ(a, o, i, v) < c
def toHead(a [int]string, o int, i int, v string, c int) int = i - min2(occ(a, o, i, v), c)

func datastruct.List.LRemCountFromHead
props C03
requires 0 < ref(l) && l.length > 0 && n >= 0
modifies List.length[l], List.seq[l]
ensures cnt == min2(old(occIn(l, value)), n)
ensures l.length == old(l.length) - cnt
ensures forall i int {old(l.seq)[l.lo + i]} :: 0 <= i < old(l.length) && !goneHead(old(l.seq), l.lo, i, value, n) ==> at(l, toHead(old(l.seq), l.lo, i, value, n)) == old(l.seq)[l.lo + i]
witness l.seq = lambda p int :: if p < l.lo + j - cnt then E2[p] else old(l.seq)[p + cnt]
witness l.nodes = lambda p int :: if p < l.lo + j - cnt then E[p] else old(l.nodes)[p + cnt]
witness lpos = lambda r int :: if lown[r] == ref(l) then (if old(lpos)[r] < l.lo + j then NP[r] else old(lpos)[r] - cnt) else old(lpos)[r]
loop 0 modifies listNode.next{r: r == ref(dumbHead) || lown[r] == ref(l)}, listNode.prev{r: r == ref(dumbHead) || lown[r] == ref(l)}
loop 0 ghost n0 int = n
loop 0 ghost j int = 0
loop 0 ghost E [int]int = old(l.nodes)
loop 0 ghost E2 [int]string = old(l.seq)
loop 0 ghost NP [int]int = old(lpos)
loop 0 invariant 0 <= j <= l.length && n >= 0 && n0 >= 0 && cnt + n == n0 && cnt == occ(l.seq, l.lo, j, value)
loop 0 invariant ref(cur) == (if j < l.length then l.nodes[l.lo + j] else 0)
loop 0 invariant ref(next) == (if j + 1 < l.length then l.nodes[l.lo + j + 1] else 0)
loop 0 invariant ref(prev) == (if j == cnt then ref(dumbHead) else E[l.lo + j - cnt - 1])
loop 0 invariant ref(dumbHead.next) == (if j == cnt then ref(cur) else E[l.lo])
loop 0 invariant forall p int {E[p]} :: l.lo <= p < l.lo + j - cnt ==> 0 < E[p] && allocated(nd(E[p])) && lown[E[p]] == ref(l) && l.lo <= lpos[E[p]] < l.lo + j && NP[E[p]] == p && l.nodes[lpos[E[p]]] == E[p] && nd(E[p]).value == E2[p] && E[p] != ref(dumbHead)
loop 0 invariant forall p int {nd(E[p]).next} :: l.lo <= p < l.lo + j - cnt ==> ref(nd(E[p]).next) == (if p + 1 < l.lo + j - cnt then E[p + 1] else ref(cur))
loop 0 invariant forall p int {nd(E[p]).prev} :: l.lo < p < l.lo + j - cnt ==> ref(nd(E[p]).prev) == E[p - 1]
loop 0 invariant forall p int {nd(l.nodes[p]).next} :: l.lo + j <= p < hi(l) ==> ref(nd(l.nodes[p]).next) == (if p + 1 < hi(l) then l.nodes[p + 1] else 0)
loop 0 invariant forall p int {nd(l.nodes[p]).prev} :: l.lo + j < p < hi(l) ==> ref(nd(l.nodes[p]).prev) == l.nodes[p - 1]
loop 0 invariant j < l.length && j > 0 ==> ref(cur.prev) == ref(prev)
loop 0 invariant forall i int {l.seq[l.lo + i]} {occ(l.seq, l.lo, i, value)} :: 0 <= i < j && l.seq[l.lo + i] != value ==> E2[l.lo + i - occ(l.seq, l.lo, i, value)] == l.seq[l.lo + i]
loop 0 lemma j < l.length ==> occ(l.seq, l.lo, j + 1, value) == occ(l.seq, l.lo, j, value) + (if l.seq[l.lo + j] == value then 1 else 0)
loop 0 step NP = if l.seq[l.lo + j] == value then NP else NP[l.nodes[l.lo + j] := l.lo + j - cnt]
loop 0 step E = if l.seq[l.lo + j] == value then E else E[l.lo + j - cnt := l.nodes[l.lo + j]]
loop 0 step E2 = if l.seq[l.lo + j] == value then E2 else E2[l.lo + j - cnt := l.seq[l.lo + j]]
loop 0 step j = j + 1
loop 0 decreases l.length - j

// removing the last c occurrences: s are left in place before the first one that goes
def goneTail(a [int]string, o int, i int, v string, s int) bool = a[o + i] == v && occ(a, o, i, v) >= s
def toTail(a [int]string, o int, i int, v string, s int) int = i - max2(0, occ(a, o, i, v) - s)

func datastruct.List.LRemCountFromTail
props C03
requires 0 < ref(l) && l.length > 0 && n >= 0
modifies List.length[l], List.seq[l]
ensures cnt == min2(old(occIn(l, value)), n)
ensures l.length == old(l.length) - cnt
ensures forall i int {old(l.seq)[l.lo + i]} :: 0 <= i < old(l.length) && !goneTail(old(l.seq), l.lo, i, value, max2(0, old(occIn(l, value)) - n)) ==> at(l, toTail(old(l.seq), l.lo, i, value, max2(0, old(occIn(l, value)) - n))) == old(l.seq)[l.lo + i]
witness l.seq = lambda p int :: if p < old(hi(l)) - j then old(l.seq)[p] else E2[p + cnt]
witness l.nodes = lambda p int :: if p < old(hi(l)) - j then old(l.nodes)[p] else E[p + cnt]
witness lpos = lambda r int :: if lown[r] == ref(l) then (if old(lpos)[r] < old(hi(l)) - j then old(lpos)[r] else NP[r] - cnt) else old(lpos)[r]
loop 0 modifies listNode.next{r: r == ref(dumbTail) || lown[r] == ref(l)}, listNode.prev{r: r == ref(dumbTail) || lown[r] == ref(l)}
loop 0 ghost n0 int = n
loop 0 ghost j int = 0
loop 0 ghost E [int]int = old(l.nodes)
loop 0 ghost E2 [int]string = old(l.seq)
loop 0 ghost NP [int]int = old(lpos)
loop 0 invariant 0 <= j <= l.length && n >= 0 && n0 >= 0 && cnt + n == n0 && cnt == occ(l.seq, l.lo, l.length, value) - occ(l.seq, l.lo, l.length - j, value) && 0 <= cnt <= j
loop 0 invariant ref(cur) == (if j < l.length then l.nodes[hi(l) - 1 - j] else 0)
loop 0 invariant ref(next) == (if j + 1 < l.length then l.nodes[hi(l) - 2 - j] else 0)
loop 0 invariant ref(prev) == (if j == cnt then ref(dumbTail) else E[hi(l) - j + cnt])
loop 0 invariant ref(dumbTail.prev) == (if j == cnt then ref(cur) else E[hi(l) - 1])
loop 0 invariant forall p int {E[p]} :: hi(l) - j + cnt <= p < hi(l) ==> 0 < E[p] && allocated(nd(E[p])) && lown[E[p]] == ref(l) && hi(l) - j <= lpos[E[p]] < hi(l) && NP[E[p]] == p && l.nodes[lpos[E[p]]] == E[p] && nd(E[p]).value == E2[p] && E[p] != ref(dumbTail)
loop 0 invariant forall p int {nd(E[p]).prev} :: hi(l) - j + cnt <= p < hi(l) ==> ref(nd(E[p]).prev) == (if p > hi(l) - j + cnt then E[p - 1] else ref(cur))
loop 0 invariant forall p int {nd(E[p]).next} :: hi(l) - j + cnt <= p < hi(l) - 1 ==> ref(nd(E[p]).next) == E[p + 1]
loop 0 invariant forall p int {nd(l.nodes[p]).prev} :: l.lo <= p < hi(l) - j ==> ref(nd(l.nodes[p]).prev) == (if l.lo < p then l.nodes[p - 1] else 0)
loop 0 invariant forall p int {nd(l.nodes[p]).next} :: l.lo <= p < hi(l) - j - 1 ==> ref(nd(l.nodes[p]).next) == l.nodes[p + 1]
loop 0 invariant j < l.length && j > 0 ==> ref(cur.next) == ref(prev)
loop 0 invariant forall i int {l.seq[l.lo + i]} {occ(l.seq, l.lo, i, value)} :: l.length - j <= i < l.length && l.seq[l.lo + i] != value ==> E2[l.lo + i + occ(l.seq, l.lo, l.length, value) - occ(l.seq, l.lo, i, value)] == l.seq[l.lo + i]
loop 0 lemma j < l.length ==> occ(l.seq, l.lo, l.length - j, value) == occ(l.seq, l.lo, l.length - j - 1, value) + (if l.seq[hi(l) - j - 1] == value then 1 else 0)
loop 0 step NP = if l.seq[hi(l) - 1 - j] == value then NP else NP[l.nodes[hi(l) - 1 - j] := hi(l) - 1 - j + cnt]
loop 0 step E = if l.seq[hi(l) - 1 - j] == value then E else E[hi(l) - 1 - j + cnt := l.nodes[hi(l) - 1 - j]]
loop 0 step E2 = if l.seq[hi(l) - 1 - j] == value then E2 else E2[hi(l) - 1 - j + cnt := l.seq[hi(l) - 1 - j]]
loop 0 step j = j + 1
loop 0 decreases l.length - j
