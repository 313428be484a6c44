// Skip lists: the ordered sequence of scored members a sorted set represents.
module zsl datastruct
private =F:datastruct.zSkipListLeve.forward =F:datastruct.zSkipListLeve.span =F:datastruct.zSkipListNode.backward =F:datastruct.zSkipList.level =F:datastruct.zSkipList.tail =GV:zlnode =GV:zlidx
private zSkipList.length zSkipList.head zSkipList.ok zSkipList.vals zSkipList.sc zSkipList.mem zSkipList.rk zSkipList.nodes zSkipListNode.score zSkipListNode.value zSkipListNode.levels

// the members in order are vals[1..length], held by nodes[1..length] (nodes[0] is the head);
// mem is their set, sc their scores, rk their positions
ghost zSkipList.ok bool
ghost zSkipList.vals [int]string
ghost zSkipList.mem [string]bool
ghost zSkipList.sc [string]float
ghost zSkipList.rk [string]int
ghost zSkipList.nodes [int]int
// which list a node belongs to and its position there; which node and level a level object belongs to
ghostvar zown [int]int
ghostvar zpos [int]int
ghostvar zlnode [int]int
ghostvar zlidx [int]int

def zn(r int) *zSkipListNode = obj("*zSkipListNode", r)
def hgt(r int) int = len(zn(r).levels)
def lev(r int, i int) *zSkipListLeve = zn(r).levels[i]
def fwd(r int, i int) int = ref(lev(r, i).forward)
def spn(r int, i int) int = lev(r, i).span
// (score, member) order
def zless(s float, v string, t float, w string) bool = s < t || feq(s, t) && v < w
def zat(z *zSkipList, p int) string = z.vals[p]
def scat(z *zSkipList, p int) float = z.sc[z.vals[p]]

assume @memory forall z *zSkipList {z.length} :: z.length <= 1152921504606846976

invariant @shape forall z *zSkipList {z.ok} :: z.ok ==> 0 < ref(z) && allocated(z) && 0 <= z.length && z.length == card(z.mem) && 1 <= z.level <= 32 && 0 < ref(z.head) && z.nodes[0] == ref(z.head) && hgt(z.nodes[0]) == 32
invariant @nodes forall z *zSkipList, p int {z.nodes[p]} :: z.ok && 0 <= p <= z.length ==> 0 < z.nodes[p] && allocated(zn(z.nodes[p])) && zown[z.nodes[p]] == ref(z) && zpos[z.nodes[p]] == p && 1 <= hgt(z.nodes[p]) && (p > 0 ==> hgt(z.nodes[p]) <= z.level)
invariant @values forall z *zSkipList, p int {z.nodes[p]} {z.vals[p]} :: z.ok && 1 <= p <= z.length ==> zn(z.nodes[p]).value == z.vals[p] && zn(z.nodes[p]).score == z.sc[z.vals[p]] && !nan(z.sc[z.vals[p]]) && z.mem[z.vals[p]] && z.rk[z.vals[p]] == p
invariant @ranks forall z *zSkipList, v string {z.mem[v]} {z.rk[v]} :: z.ok && z.mem[v] ==> 1 <= z.rk[v] <= z.length && z.vals[z.rk[v]] == v
invariant @order forall z *zSkipList, p int, q int {z.vals[p], z.vals[q]} :: z.ok && 1 <= p < q <= z.length ==> zless(scat(z, p), zat(z, p), scat(z, q), zat(z, q))
invariant @arrays forall z *zSkipList, p int {zn(z.nodes[p]).levels} :: z.ok && 0 <= p <= z.length ==> allocated(zn(z.nodes[p]).levels)
invariant @levels forall z *zSkipList, p int, i int {lev(z.nodes[p], i)} :: z.ok && 0 <= p <= z.length && 0 <= i < hgt(z.nodes[p]) ==> 0 < ref(lev(z.nodes[p], i)) && allocated(lev(z.nodes[p], i)) && zlnode[ref(lev(z.nodes[p], i))] == z.nodes[p] && zlidx[ref(lev(z.nodes[p], i))] == i
invariant @links forall z *zSkipList, p int, i int {lev(z.nodes[p], i)} :: z.ok && 0 <= p <= z.length && 0 <= i < hgt(z.nodes[p]) && i < z.level ==> 0 <= spn(z.nodes[p], i) && p + spn(z.nodes[p], i) <= z.length && (if fwd(z.nodes[p], i) == 0 then p + spn(z.nodes[p], i) == z.length else 1 <= spn(z.nodes[p], i) && fwd(z.nodes[p], i) == z.nodes[p + spn(z.nodes[p], i)] && hgt(z.nodes[p + spn(z.nodes[p], i)]) > i)
invariant @base forall z *zSkipList, p int {lev(z.nodes[p], 0)} :: z.ok && 0 <= p <= z.length ==> 0 < ref(lev(z.nodes[p], 0)) && allocated(lev(z.nodes[p], 0)) && spn(z.nodes[p], 0) == (if p < z.length then 1 else 0) && fwd(z.nodes[p], 0) == (if p < z.length then z.nodes[p + 1] else 0)
invariant @top forall z *zSkipList, i int {lev(z.nodes[0], i)} :: z.ok && z.level <= i < 32 ==> fwd(z.nodes[0], i) == 0
invariant @gaps forall z *zSkipList, p int, i int, q int {lev(z.nodes[p], i), z.nodes[q]} :: z.ok && 0 <= p < q <= p + spn(z.nodes[p], i) && 0 <= i < hgt(z.nodes[p]) && i < z.level && p <= z.length && (q == p + spn(z.nodes[p], i) ==> fwd(z.nodes[p], i) == 0) ==> hgt(z.nodes[q]) <= i
invariant @back forall z *zSkipList, p int {zn(z.nodes[p]).backward} :: z.ok && 1 <= p <= z.length ==> ref(zn(z.nodes[p]).backward) == (if p == 1 then 0 else z.nodes[p - 1])

func datastruct.newZslNode
inline
loop 0 invariant 0 <= i <= level && fresh(node) && fresh(node.levels) && len(node.levels) == level && node.levels.off == 0 && node.score == score && node.value == value && ref(node.backward) == 0
loop 0 invariant forall j int {node.levels[j]} :: 0 <= j < i ==> fresh(node.levels[j]) && node.levels[j].span == 0 && ref(node.levels[j].forward) == 0
loop 0 ghost j int = 0
loop 0 invariant j == i
loop 0 invariant forall q int {node.levels[q]} :: 0 <= q < i ==> zlnode[ref(node.levels[q])] == ref(node) && zlidx[ref(node.levels[q])] == q
loop 0 invariant forall r int {zlnode[r]} {zlidx[r]} :: r < ref(node) ==> zlnode[r] == old(zlnode)[r] && zlidx[r] == old(zlidx)[r]
loop 0 step zlnode = zlnode[ref(node.levels[j]) := ref(node)]
loop 0 step zlidx = zlidx[ref(node.levels[j]) := j]
loop 0 step j = j + 1


// position of the last element before the given place, walking down the levels
func datastruct.zSkipList.findElementByRank
props C11 C13
requires zsl.ok
ensures ref(result) == (if 0 <= rank <= zsl.length then zsl.nodes[rank] else 0)
ensures 1 <= rank <= zsl.length ==> 0 < ref(result) && allocated(result) && result.value == zat(zsl, rank) && result.score == scat(zsl, rank) && zsl.mem[zat(zsl, rank)] && zsl.rk[zat(zsl, rank)] == rank
loop 0 invariant 0 - 1 <= i < zsl.level && 0 <= traversed <= zsl.length && ref(x) == zsl.nodes[traversed] && i < hgt(ref(x)) && traversed <= rank
loop 0 invariant i + 1 < zsl.level ==> traversed != rank && hgt(ref(x)) > i + 1 && (fwd(ref(x), i + 1) == 0 || traversed + spn(ref(x), i + 1) > rank)
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && 0 <= traversed <= zsl.length && ref(x) == zsl.nodes[traversed] && i < hgt(ref(x)) && traversed <= rank
loop 1 decreases zsl.length - traversed

func datastruct.zSkipList.rank
props C11
requires zsl.ok && zsl.mem[value] && score == zsl.sc[value]
ensures result == zsl.rk[value] && 1 <= result <= zsl.length && zat(zsl, result) == value
loop 0 invariant 0 - 1 <= i < zsl.level && 0 <= rank <= zsl.length && ref(x) == zsl.nodes[rank] && i < hgt(ref(x)) && rank < zsl.rk[value]
loop 0 invariant i + 1 < zsl.level ==> hgt(ref(x)) > i + 1 && (fwd(ref(x), i + 1) == 0 || rank + spn(ref(x), i + 1) > zsl.rk[value])
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && 0 <= rank <= zsl.length && ref(x) == zsl.nodes[rank] && i < hgt(ref(x)) && rank < zsl.rk[value]
loop 1 decreases zsl.length - rank

// the first minRank-1 members are below the bound, the others are not
def below(s float, t float, open bool) bool = s < t || open && feq(s, t)
func datastruct.zSkipList.minScoreRank
props C12
requires zsl.ok && !nan(score)
ensures 1 <= result <= zsl.length + 1
ensures first_r(result - 1) ==> result == zbelow(zsl, score, openInterval) + 1
ensures forall p int {zsl.vals[p]} :: 1 <= p <= zsl.length ==> below(scat(zsl, p), score, openInterval) == (p < result)
loop 0 invariant 0 - 1 <= i < zsl.level && 0 <= rank <= zsl.length && ref(x) == zsl.nodes[rank] && i < hgt(ref(x))
loop 0 invariant rank > 0 ==> below(scat(zsl, rank), score, openInterval)
loop 0 invariant i + 1 < zsl.level ==> hgt(ref(x)) > i + 1 && (fwd(ref(x), i + 1) == 0 || !below(scat(zsl, rank + spn(ref(x), i + 1)), score, openInterval))
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && 0 <= rank <= zsl.length && ref(x) == zsl.nodes[rank] && i < hgt(ref(x))
loop 1 invariant rank > 0 ==> below(scat(zsl, rank), score, openInterval)
loop 1 decreases zsl.length - rank

func datastruct.zSkipList.maxScoreRank
props C12
requires zsl.ok && !nan(score)
ensures 0 <= result <= zsl.length
ensures first_r(result) ==> result == zbelow(zsl, score, !openInterval)
ensures forall p int {zsl.vals[p]} :: 1 <= p <= zsl.length ==> below(scat(zsl, p), score, !openInterval) == (p <= result)
loop 0 invariant 0 - 1 <= i < zsl.level && 0 <= rank <= zsl.length && ref(x) == zsl.nodes[rank] && i < hgt(ref(x))
loop 0 invariant rank > 0 ==> below(scat(zsl, rank), score, !openInterval)
loop 0 invariant i + 1 < zsl.level ==> hgt(ref(x)) > i + 1 && (fwd(ref(x), i + 1) == 0 || !below(scat(zsl, rank + spn(ref(x), i + 1)), score, !openInterval))
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && 0 <= rank <= zsl.length && ref(x) == zsl.nodes[rank] && i < hgt(ref(x))
loop 1 invariant rank > 0 ==> below(scat(zsl, rank), score, !openInterval)
loop 1 decreases zsl.length - rank

// positions start..stop counted from 0, from either end
func datastruct.zSkipList.zRange
props C11
requires zsl.ok
def zrows(withScores bool, n int) int = if withScores then 2 * n else n
ensures len(result) == zrows(withScores, rcount(zsl.length, start, stop))
ensures len(result) == 0 || fresh(result)
ensures !withScores ==> (forall i int {result[i]} :: 0 <= i < len(result) ==> result[i] == zat(zsl, rfrom(zsl.length, start) + i + 1))
ensures withScores ==> (forall i int {result[2 * i]} {result[2 * i + 1]} :: 0 <= i < rcount(zsl.length, start, stop) ==> result[2 * i] == zat(zsl, rfrom(zsl.length, start) + i + 1) && result[2 * i + 1] == fmtfloat(scat(zsl, rfrom(zsl.length, start) + i + 1)))
loop 0 ghost j int = 0
loop 0 invariant 0 <= j && rangeLen == stop - start + 1 - j && 0 <= rangeLen && 0 <= start <= stop && stop < zsl.length && ref(node) == (if start + j < zsl.length then zsl.nodes[start + j + 1] else 0)
loop 0 invariant len(result) == zrows(withScores, j) && (j == 0 || fresh(result))
loop 0 invariant !withScores ==> (forall i int {result[i]} :: 0 <= i < j ==> result[i] == zat(zsl, start + i + 1))
loop 0 invariant withScores ==> (forall i int {result[2 * i]} {result[2 * i + 1]} :: 0 <= i < j ==> result[2 * i] == zat(zsl, start + i + 1) && result[2 * i + 1] == fmtfloat(scat(zsl, start + i + 1)))
loop 0 step j = j + 1
loop 0 decreases rangeLen

func datastruct.zSkipList.zRevRange
props C11
requires zsl.ok
ensures len(result) == zrows(withScores, rcount(zsl.length, start, stop))
ensures len(result) == 0 || fresh(result)
ensures !withScores ==> (forall i int {result[i]} :: 0 <= i < len(result) ==> result[i] == zat(zsl, zsl.length - rfrom(zsl.length, start) - i))
ensures withScores ==> (forall i int {result[2 * i]} {result[2 * i + 1]} :: 0 <= i < rcount(zsl.length, start, stop) ==> result[2 * i] == zat(zsl, zsl.length - rfrom(zsl.length, start) - i) && result[2 * i + 1] == fmtfloat(scat(zsl, zsl.length - rfrom(zsl.length, start) - i)))
loop 0 ghost j int = 0
loop 0 invariant 0 <= j && rangeLen == stop - start + 1 - j && 0 <= rangeLen && 0 <= start <= stop && stop < zsl.length && ref(node) == (if start + j < zsl.length then zsl.nodes[zsl.length - start - j] else 0)
loop 0 invariant len(result) == zrows(withScores, j) && (j == 0 || fresh(result))
loop 0 invariant !withScores ==> (forall i int {result[i]} :: 0 <= i < j ==> result[i] == zat(zsl, zsl.length - start - i))
loop 0 invariant withScores ==> (forall i int {result[2 * i]} {result[2 * i + 1]} :: 0 <= i < j ==> result[2 * i] == zat(zsl, zsl.length - start - i) && result[2 * i + 1] == fmtfloat(scat(zsl, zsl.length - start - i)))
loop 0 step j = j + 1
loop 0 decreases rangeLen

// the members within the bounds, by position
def inRange(z *zSkipList, p int, lo float, lopen bool, hi float, hopen bool) bool = !below(scat(z, p), lo, lopen) && below(scat(z, p), hi, !hopen)
// how many of the first n members are below a bound
rec nbelow(sc [string]float, vals [int]string, n int, t float, open bool) int = if n <= 0 then 0 else nbelow(sc, vals, n - 1, t, open) + (if below(sc[vals[n]], t, open) then 1 else 0)
def first_r(r int) bool
axiom forall r int {first_r(r)} :: first_r(r)
lemma nbelow_split n 0 : forall sc [string]float, vals [int]string, n int, t float, open bool, r int {nbelow(sc, vals, n, t, open), first_r(r)} :: (forall p int {vals[p]} :: 1 <= p <= n ==> below(sc[vals[p]], t, open) == (p <= r)) && 0 <= r && 0 <= n ==> nbelow(sc, vals, n, t, open) == (if n <= r then n else r)
def zbelow(z *zSkipList, t float, open bool) int = nbelow(z.sc, z.vals, z.length, t, open)
def zhits(z *zSkipList, lo float, lopen bool, hi float, hopen bool) int = let d = zbelow(z, hi, !hopen) - zbelow(z, lo, lopen) in if d < 0 then 0 else d

func datastruct.zSkipList.count
props C12
requires zsl.ok && !nan(min) && !nan(max)
ensures result == zhits(zsl, min, minOpen, max, maxOpen)

func datastruct.zSkipList.zRangeByScore
props C12
requires zsl.ok && !nan(min) && !nan(max)
ensures len(result) == zrows(withScores, zhits(zsl, min, minOpen, max, maxOpen))
ensures len(result) == 0 || fresh(result)
ensures !withScores ==> (forall i int {result[i]} :: 0 <= i < len(result) ==> result[i] == zat(zsl, zbelow(zsl, min, minOpen) + i + 1))
ensures withScores ==> (forall i int {result[2 * i]} {result[2 * i + 1]} :: 0 <= i < zhits(zsl, min, minOpen, max, maxOpen) ==> result[2 * i] == zat(zsl, zbelow(zsl, min, minOpen) + i + 1) && result[2 * i + 1] == fmtfloat(scat(zsl, zbelow(zsl, min, minOpen) + i + 1)))

func datastruct.newZSkipList
props C10 C11 C12 C13
modifies zown, zpos
ensures fresh(result)
update result.ok = true
update result.mem = emptyset()
update result.sc = noScores()
update result.nodes = old(result.nodes)[0 := ref(result.head)]
ensures result.length == 0
ensures zscores()
witness zown = old(zown)[ref(result.head) := ref(result)]
witness zpos = old(zpos)[ref(result.head) := 0]

// every height from 1 to 32 is possible
func datastruct.zslRandomLevel
props C10 C11 C12 C13
ensures 1 <= result <= 32
loop 0 invariant 1 <= level
loop 0 assume level < 9223372036854775807
loop 0 chance a run of random numbers below a quarter of the range ends with probability 1

// how many of the first n members come before (s, v)
rec nless(sc [string]float, vals [int]string, n int, s float, v string) int = if n <= 0 then 0 else nless(sc, vals, n - 1, s, v) + (if zless(sc[vals[n]], vals[n], s, v) then 1 else 0)
lemma nless_split n 0 : forall sc [string]float, vals [int]string, n int, s float, v string, r int {nless(sc, vals, n, s, v), first_r(r)} :: (forall p int {vals[p]} :: 1 <= p <= n ==> zless(sc[vals[p]], vals[p], s, v) == (p <= r)) && 0 <= r && 0 <= n ==> nless(sc, vals, n, s, v) == (if n <= r then n else r)
def zplace(z *zSkipList, s float, v string) int = nless(z.sc, z.vals, z.length, s, v)
// position p of level j is where the walk for (s, v) goes down
def before(z *zSkipList, p int, s float, v string) bool = zless(scat(z, p), zat(z, p), s, v)
// the step from position p on level j passes over position k
def jump(z *zSkipList, p int, j int, k int) bool = 0 <= spn(z.nodes[p], j) && p + spn(z.nodes[p], j) <= z.length && (if fwd(z.nodes[p], j) == 0 then p + spn(z.nodes[p], j) == z.length else p + spn(z.nodes[p], j) > k && fwd(z.nodes[p], j) == z.nodes[p + spn(z.nodes[p], j)] && hgt(z.nodes[p + spn(z.nodes[p], j)]) > j)
def turn(z *zSkipList, u int, p int, j int, s float, v string) bool = u == z.nodes[p] && 0 <= p <= z.length && hgt(u) > j && (p > 0 ==> before(z, p, s, v)) && (fwd(u, j) == 0 || !before(z, p + spn(u, j), s, v))
// the node of member v holds it with the score recorded and belongs to this list
def znode(z *zSkipList, v string) bool = 0 < z.nodes[z.rk[v]] && allocated(zn(z.nodes[z.rk[v]])) && zn(z.nodes[z.rk[v]]).score == z.sc[v] && zn(z.nodes[z.rk[v]]).value == v && zown[z.nodes[z.rk[v]]] == ref(z) && !nan(z.sc[v])
def zscores() bool = forall z *zSkipList, v string {z.rk[v]} :: z.ok && z.mem[v] ==> znode(z, v)
def noScores() [string]float

func datastruct.zSkipList.insert
cases z = zsl
props C10 C11 C12 C13
requires zsl.ok && !nan(score) && !zsl.mem[value]
modifies zSkipList.length[zsl], zSkipList.vals[zsl], zSkipList.mem[zsl], zSkipList.sc[zsl], zSkipList.rk[zsl], zSkipList.nodes[zsl], zown, zpos
update zsl.vals = let k = old(zplace(zsl, score, value)) in lambda p int :: if p <= k then old(zsl.vals)[p] else if p == k + 1 then value else old(zsl.vals)[p - 1]
update zsl.nodes = let k = old(zplace(zsl, score, value)) in lambda p int :: if p <= k then old(zsl.nodes)[p] else if p == k + 1 then ref(result) else old(zsl.nodes)[p - 1]
update zsl.rk = let k = old(zplace(zsl, score, value)) in lambda v string :: if v == value then k + 1 else if old(zsl.rk)[v] > k then old(zsl.rk)[v] + 1 else old(zsl.rk)[v]
update zsl.mem = old(zsl.mem)[value := true]
update zsl.sc = old(zsl.sc)[value := score]
witness zown = old(zown)[ref(result) := ref(zsl)]
witness zpos = let k = old(zplace(zsl, score, value)) in lambda r int :: if r == ref(result) then k + 1 else if old(zown)[r] == ref(zsl) && old(zpos)[r] > k then old(zpos)[r] + 1 else old(zpos)[r]
ensures fresh(result) && result.score == score && result.value == value
ensures zsl.length == old(zsl.length) + 1 && zsl.length == card(zsl.mem)
ensures ref(result) == nodeOf(zsl, value)
ensures forall v string {zsl.rk[v]} :: v != value && zsl.mem[v] ==> nodeOf(zsl, v) == old(nodeOf(zsl, v))
ensures zscores()
loop 0 invariant 0 - 1 <= i < zsl.level && len(update) == 32 && len(rank) == 33 && fresh(update) && fresh(rank) && update.off == 0 && rank.off == 0
loop 0 invariant 0 <= zpos[ref(x)] <= zsl.length && ref(x) == zsl.nodes[zpos[ref(x)]] && i < hgt(ref(x)) && (zpos[ref(x)] > 0 ==> before(zsl, zpos[ref(x)], score, value))
loop 0 invariant if i + 1 < zsl.level then rank[i + 1] == zpos[ref(x)] else zpos[ref(x)] == 0
loop 0 invariant forall j int {update[j]} {rank[j]} :: i < j < zsl.level ==> turn(zsl, ref(update[j]), rank[j], j, score, value) && rank[j] <= zpos[ref(x)]
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && len(update) == 32 && len(rank) == 33 && fresh(update) && fresh(rank) && update.off == 0 && rank.off == 0
loop 1 invariant 0 <= zpos[ref(x)] <= zsl.length && ref(x) == zsl.nodes[zpos[ref(x)]] && i < hgt(ref(x)) && (zpos[ref(x)] > 0 ==> before(zsl, zpos[ref(x)], score, value))
loop 1 invariant rank[i] == zpos[ref(x)]
loop 1 invariant forall j int {update[j]} {rank[j]} :: i < j < zsl.level ==> turn(zsl, ref(update[j]), rank[j], j, score, value) && rank[j] <= zpos[ref(x)]
loop 1 decreases zsl.length - zpos[ref(x)]
loop 2 modifies zSkipListLeve.span{r: zlnode[r] == ref(zsl.head) && zlidx[r] >= zsl.level}
loop 2 invariant zsl.level <= i <= level && 1 <= level <= 32 && len(update) == 32 && len(rank) == 33 && fresh(update) && fresh(rank) && update.off == 0 && rank.off == 0
loop 2 invariant forall j int {update[j]} {rank[j]} :: 0 <= j < zsl.level ==> turn(zsl, ref(update[j]), rank[j], j, score, value) && rank[j] <= rank[0]
loop 2 invariant forall j int {update[j]} {rank[j]} :: zsl.level <= j < i ==> ref(update[j]) == ref(zsl.head) && rank[j] == 0
loop 2 invariant forall j int {update[j]} {rank[j]} {lev(ref(zsl.head), j)} :: zsl.level <= j < i ==> spn(ref(zsl.head), j) == zsl.length
loop 2 decreases level - i
loop 3 invariant first_r(rank[0]) ==> rank[0] == zplace(zsl, score, value)
loop 3 invariant 0 <= i <= level && 1 <= level <= 32 && len(update) == 32 && len(rank) == 33 && fresh(update) && fresh(rank) && update.off == 0 && rank.off == 0 && fresh(x)
loop 3 invariant forall j int {update[j]} {rank[j]} :: 0 <= j < zsl.level ==> ref(update[j]) == zsl.nodes[rank[j]] && 0 <= rank[j] <= rank[0] && hgt(ref(update[j])) > j
loop 3 modifies zSkipListLeve.span{r: zlnode[r] == ref(x) || zown[zlnode[r]] == ref(zsl)}, zSkipListLeve.forward{r: zlnode[r] == ref(x) || zown[zlnode[r]] == ref(zsl)}
loop 3 invariant forall q int, j int {lev(zsl.nodes[q], j)} :: 0 <= q <= zsl.length && 0 <= j < hgt(zsl.nodes[q]) ==> (if j < i && q == rank[j] then fwd(zsl.nodes[q], j) == ref(x) && spn(zsl.nodes[q], j) == rank[0] - rank[j] + 1 else fwd(zsl.nodes[q], j) == pre(fwd(zsl.nodes[q], j)) && spn(zsl.nodes[q], j) == pre(spn(zsl.nodes[q], j)))
loop 3 invariant forall j int {lev(ref(x), j)} :: 0 <= j < i ==> fwd(ref(x), j) == pre(fwd(zsl.nodes[rank[j]], j)) && spn(ref(x), j) == pre(spn(zsl.nodes[rank[j]], j)) - (rank[0] - rank[j])
loop 3 invariant forall j int {update[j]} {rank[j]} :: 0 <= j < zsl.level ==> pre(jump(zsl, rank[j], j, rank[0]))
loop 3 decreases level - i
loop 4 invariant level <= i <= zsl.level && len(update) == 32 && fresh(update) && update.off == 0
loop 4 modifies zSkipListLeve.span{r: zown[zlnode[r]] == ref(zsl) && zlnode[r] != ref(x)}
loop 4 invariant forall q int, j int {lev(zsl.nodes[q], j)} :: 0 <= q <= zsl.length && 0 <= j < hgt(zsl.nodes[q]) ==> (if level <= j < i && q == rank[j] then spn(zsl.nodes[q], j) == pre(spn(zsl.nodes[q], j)) + 1 else spn(zsl.nodes[q], j) == pre(spn(zsl.nodes[q], j)))
loop 4 invariant forall j int {update[j]} {rank[j]} :: level <= j < zsl.level ==> pre(jump(zsl, rank[j], j, rank[0]))
loop 4 decreases zsl.level - i
hint forall j int {rank[j]} :: 0 <= j < old(zsl.level) ==> 0 <= rank[j] <= rank[0] && rank[0] <= old(zsl.length) && hgt(old(zsl.nodes)[rank[j]]) > j && (let r = rank[j] in let k = rank[0] in old(jump(zsl, r, j, k)))
hint forall j int {rank[j]} :: old(zsl.level) <= j < level ==> rank[j] == 0
hint forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) ==> fwd(old(zsl.nodes)[q], j) == (if j < level && q == rank[j] then ref(result) else old(fwd(zsl.nodes[q], j)))
hint forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < zsl.level ==> spn(old(zsl.nodes)[q], j) == (if q == rank[j] then (if j < level then rank[0] - rank[j] + 1 else old(spn(zsl.nodes[q], j)) + 1) else old(spn(zsl.nodes[q], j)))
hint forall j int {lev(ref(result), j)} :: 0 <= j < level ==> (let r = rank[j] in fwd(ref(result), j) == (if j < old(zsl.level) then old(fwd(zsl.nodes[r], j)) else 0) && spn(ref(result), j) == (if j < old(zsl.level) then old(spn(zsl.nodes[r], j)) - (rank[0] - r) else old(zsl.length) - rank[0]))
hint forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) ==> (q < rank[j] ==> q + old(spn(zsl.nodes[q], j)) <= rank[j] && old(fwd(zsl.nodes[q], j)) != 0) && (q > rank[j] ==> q > rank[0])
hint zsl.nodes[rank[0] + 1] == ref(result) && (forall p int {zsl.nodes[p]} :: 0 <= p <= rank[0] ==> zsl.nodes[p] == old(zsl.nodes)[p]) && (forall p int {zsl.nodes[p]} :: rank[0] + 1 < p ==> zsl.nodes[p] == old(zsl.nodes)[p - 1]) && zsl.length == old(zsl.length) + 1
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: p == rank[0] + 1 && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: rank[0] + 1 < p <= zsl.length && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: 0 <= p <= rank[0] && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: 0 <= p <= zsl.length && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint forall z *zSkipList, p int, i int {lev(z.nodes[p], i)} :: z != zsl && z.ok && 0 <= p <= z.length && 0 <= i < hgt(z.nodes[p]) ==> z.level == old(z.level) && hgt(z.nodes[p]) == old(hgt(z.nodes[p])) && fwd(z.nodes[p], i) == old(fwd(z.nodes[p], i)) && spn(z.nodes[p], i) == old(spn(z.nodes[p], i))
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: 0 <= p <= zsl.length && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> 1 <= spn(zsl.nodes[p], i) && hgt(zsl.nodes[p + spn(zsl.nodes[p], i)]) > i
hint @cut forall z *zSkipList, p int, i int {lev(z.nodes[p], i)} :: z != zsl && z.ok && 0 <= p <= z.length && 0 <= i < hgt(z.nodes[p]) && i < z.level && fwd(z.nodes[p], i) != 0 ==> fwd(z.nodes[p], i) == z.nodes[p + spn(z.nodes[p], i)]

def nodeOf(z *zSkipList, v string) int = z.nodes[z.rk[v]]
// u is the last node of level j before position k
def ahead(z *zSkipList, u int, j int, k int) bool = 0 < u && u == z.nodes[zpos[u]] && 0 <= zpos[u] < k && hgt(u) > j && zpos[u] + spn(u, j) >= k
func datastruct.zSkipList.deleteNode
cases z = zsl
props C10 C11 C12 C13
requires zsl.ok && 1 <= zpos[ref(node)] <= zsl.length && zsl.nodes[zpos[ref(node)]] == ref(node) && len(update) == 32
requires forall j int {update[j]} :: 0 <= j < zsl.level ==> ahead(zsl, ref(update[j]), j, zpos[ref(node)])
modifies zSkipList.length[zsl], zSkipList.vals[zsl], zSkipList.mem[zsl], zSkipList.rk[zsl], zSkipList.nodes[zsl], zown, zpos
update zsl.vals = let k = old(zpos[ref(node)]) in lambda p int :: if p < k then old(zsl.vals)[p] else old(zsl.vals)[p + 1]
update zsl.nodes = let k = old(zpos[ref(node)]) in lambda p int :: if p < k then old(zsl.nodes)[p] else old(zsl.nodes)[p + 1]
update zsl.rk = let k = old(zpos[ref(node)]) in lambda v string :: if old(zsl.rk)[v] > k then old(zsl.rk)[v] - 1 else old(zsl.rk)[v]
update zsl.mem = old(zsl.mem)[old(node.value) := false]
witness zown = old(zown)[ref(node) := 0]
witness zpos = let k = old(zpos[ref(node)]) in lambda r int :: if old(zown)[r] == ref(zsl) && old(zpos)[r] > k then old(zpos)[r] - 1 else old(zpos)[r]
ensures zsl.length == old(zsl.length) - 1
ensures zscores()
loop 0 invariant 0 <= i <= zsl.level
loop 0 modifies zSkipListLeve.span{r: zown[zlnode[r]] == ref(zsl)}, zSkipListLeve.forward{r: zown[zlnode[r]] == ref(zsl)}
loop 0 invariant forall q int, j int {lev(zsl.nodes[q], j)} :: 0 <= q <= zsl.length && 0 <= j < hgt(zsl.nodes[q]) ==> (if j < i && q == zpos[ref(update[j])] then (if pre(fwd(zsl.nodes[q], j)) == ref(node) then fwd(zsl.nodes[q], j) == pre(fwd(ref(node), j)) && spn(zsl.nodes[q], j) == pre(spn(zsl.nodes[q], j)) + pre(spn(ref(node), j)) - 1 else fwd(zsl.nodes[q], j) == pre(fwd(zsl.nodes[q], j)) && spn(zsl.nodes[q], j) == pre(spn(zsl.nodes[q], j)) - 1) else fwd(zsl.nodes[q], j) == pre(fwd(zsl.nodes[q], j)) && spn(zsl.nodes[q], j) == pre(spn(zsl.nodes[q], j)))
loop 0 decreases zsl.level - i
loop 1 invariant 1 <= zsl.level <= pre(zsl.level)
loop 1 modifies zSkipList.level[zsl]
loop 1 invariant forall i int {lev(ref(zsl.head), i)} :: zsl.level <= i < pre(zsl.level) ==> fwd(ref(zsl.head), i) == 0
loop 1 decreases zsl.level
hint let k = old(zpos[ref(node)]) in (forall p int {zsl.nodes[p]} :: 0 <= p < k ==> zsl.nodes[p] == old(zsl.nodes)[p]) && (forall p int {zsl.nodes[p]} :: k <= p ==> zsl.nodes[p] == old(zsl.nodes)[p + 1]) && zsl.length == old(zsl.length) - 1 && 1 <= zsl.level <= old(zsl.level)
hint forall j int {update[j]} :: 0 <= j < old(zsl.level) ==> (let u = ref(update[j]) in let k = old(zpos[ref(node)]) in 0 <= old(zpos[u]) < k && u == old(zsl.nodes[zpos[u]]) && hgt(u) > j && old(zpos[u] + spn(u, j)) >= k && (if hgt(ref(node)) > j then old(fwd(u, j)) == ref(node) && old(zpos[u] + spn(u, j)) == k else old(fwd(u, j)) != ref(node)))
hint forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) ==> (let u = ref(update[j]) in fwd(old(zsl.nodes)[q], j) == (if q == old(zpos[u]) && hgt(ref(node)) > j then old(fwd(ref(node), j)) else old(fwd(zsl.nodes[q], j))))
hint forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) ==> (let u = ref(update[j]) in spn(old(zsl.nodes)[q], j) == (if q == old(zpos[u]) then (if hgt(ref(node)) > j then old(spn(zsl.nodes[q], j)) + old(spn(ref(node), j)) - 1 else old(spn(zsl.nodes[q], j)) - 1) else old(spn(zsl.nodes[q], j))))
hint forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) ==> (let u = ref(update[j]) in let k = old(zpos[ref(node)]) in (q < old(zpos[u]) ==> q + old(spn(zsl.nodes[q], j)) <= old(zpos[u]) && old(fwd(zsl.nodes[q], j)) != 0) && (q > old(zpos[u]) ==> q >= k))
hint forall i int {lev(zsl.nodes[0], i)} :: zsl.level <= i < 32 ==> fwd(zsl.nodes[0], i) == 0
hint @cut forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) && q != old(zpos[ref(node)]) && fwd(old(zsl.nodes)[q], j) != 0 ==> (let t = q + spn(old(zsl.nodes)[q], j) in let k = old(zpos[ref(node)]) in t > q && fwd(old(zsl.nodes)[q], j) == (if t < k || q > k then old(zsl.nodes)[t] else old(zsl.nodes)[t + 1]) && hgt(fwd(old(zsl.nodes)[q], j)) > j)
hint @cut forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) && q != old(zpos[ref(node)]) && fwd(old(zsl.nodes)[q], j) == 0 ==> q + spn(old(zsl.nodes)[q], j) == (if q < old(zpos[ref(node)]) then old(zsl.length) - 1 else old(zsl.length))
hint @cut forall q int, j int {lev(old(zsl.nodes)[q], j)} :: 0 <= q <= old(zsl.length) && 0 <= j < hgt(old(zsl.nodes)[q]) && j < old(zsl.level) && (let u = ref(update[j]) in q < old(zpos[u])) ==> (let k = old(zpos[ref(node)]) in q < k && q + spn(old(zsl.nodes)[q], j) < k)
hint zsl.level < old(zsl.level) ==> (let r = zsl.level in let k = old(zpos[ref(node)]) in 0 <= old(spn(zsl.nodes[0], r)) && (old(fwd(zsl.nodes[0], r)) == 0 || old(fwd(zsl.nodes[0], r)) == ref(node) && old(fwd(ref(node), r)) == 0 && old(spn(zsl.nodes[0], r)) == k && k + old(spn(ref(node), r)) == old(zsl.length)))
hint @cut forall q int {zsl.nodes[q]} :: 1 <= q <= zsl.length ==> hgt(zsl.nodes[q]) <= zsl.level
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: (let k = old(zpos[ref(node)]) in k <= p <= zsl.length) && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: (let k = old(zpos[ref(node)]) in let u = ref(update[i]) in 0 <= p < k && p < old(zpos[u])) && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: (let k = old(zpos[ref(node)]) in let u = ref(update[i]) in 0 <= p < k && p == old(zpos[u])) && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: (let k = old(zpos[ref(node)]) in 0 <= p < k) && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: (let k = old(zpos[ref(node)]) in 0 <= p <= zsl.length) && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> fwd(zsl.nodes[p], i) == zsl.nodes[p + spn(zsl.nodes[p], i)]
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: (let k = old(zpos[ref(node)]) in 0 <= p <= zsl.length) && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level && fwd(zsl.nodes[p], i) != 0 ==> 1 <= spn(zsl.nodes[p], i) && hgt(zsl.nodes[p + spn(zsl.nodes[p], i)]) > i
hint @cut forall p int, i int {lev(zsl.nodes[p], i)} :: 0 <= p <= zsl.length && 0 <= i < hgt(zsl.nodes[p]) && i < zsl.level ==> 0 <= spn(zsl.nodes[p], i) && p + spn(zsl.nodes[p], i) <= zsl.length && (fwd(zsl.nodes[p], i) == 0 ==> p + spn(zsl.nodes[p], i) == zsl.length)
hint forall z *zSkipList, p int, i int {lev(z.nodes[p], i)} :: z != zsl && z.ok && 0 <= p <= z.length && 0 <= i < hgt(z.nodes[p]) ==> z.level == old(z.level) && hgt(z.nodes[p]) == old(hgt(z.nodes[p])) && fwd(z.nodes[p], i) == old(fwd(z.nodes[p], i)) && spn(z.nodes[p], i) == old(spn(z.nodes[p], i))
hint @cut forall z *zSkipList, p int, i int {lev(z.nodes[p], i)} :: z != zsl && z.ok && 0 <= p <= z.length && 0 <= i < hgt(z.nodes[p]) && i < z.level && fwd(z.nodes[p], i) != 0 ==> fwd(z.nodes[p], i) == z.nodes[p + spn(z.nodes[p], i)]

func datastruct.zSkipList.delete
props C10 C11 C12 C13
requires zsl.ok && zsl.mem[value] && zsl.sc[value] == score && ref(node) == 0
modifies zSkipList.length[zsl], zSkipList.vals[zsl], zSkipList.mem[zsl], zSkipList.rk[zsl], zSkipList.nodes[zsl], zown, zpos
ensures result == 1
ensures zsl.mem == old(zsl.mem)[value := false]
ensures zsl.length == old(zsl.length) - 1 && zsl.length == card(zsl.mem)
ensures forall p int {zsl.vals[p]} :: zsl.vals[p] == (if p < old(zsl.rk[value]) then old(zsl.vals)[p] else old(zsl.vals)[p + 1])
ensures forall v string {zsl.rk[v]} :: v != value && zsl.mem[v] ==> nodeOf(zsl, v) == old(nodeOf(zsl, v))
ensures zscores()
loop 0 invariant 0 - 1 <= i < zsl.level && len(update) == 32 && fresh(update) && update.off == 0
loop 0 invariant 0 <= zpos[ref(x)] <= zsl.length && ref(x) == zsl.nodes[zpos[ref(x)]] && i < hgt(ref(x)) && (zpos[ref(x)] > 0 ==> before(zsl, zpos[ref(x)], score, value))
loop 0 invariant i + 1 < zsl.level ==> ref(update[i + 1]) == ref(x)
loop 0 invariant forall j int {update[j]} :: i < j < zsl.level ==> turn(zsl, ref(update[j]), zpos[ref(update[j])], j, score, value)
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && len(update) == 32 && fresh(update) && update.off == 0
loop 1 invariant 0 <= zpos[ref(x)] <= zsl.length && ref(x) == zsl.nodes[zpos[ref(x)]] && i < hgt(ref(x)) && (zpos[ref(x)] > 0 ==> before(zsl, zpos[ref(x)], score, value))
loop 1 invariant forall j int {update[j]} :: i < j < zsl.level ==> turn(zsl, ref(update[j]), zpos[ref(update[j])], j, score, value)
loop 1 decreases zsl.length - zpos[ref(x)]

func datastruct.zSkipList.updateScore
props C10 C11 C12 C13
requires zsl.ok && zsl.mem[value] && zsl.sc[value] == curScore && !nan(newScore)
modifies zSkipListNode.score[zn(nodeOf(zsl, value))], zSkipList.length[zsl], zSkipList.vals[zsl], zSkipList.mem[zsl], zSkipList.sc[zsl], zSkipList.rk[zsl], zSkipList.nodes[zsl], zown, zpos
update zsl.sc = old(zsl.sc)[value := newScore]
ensures 0 < ref(result) && allocated(result) && ref(result) == nodeOf(zsl, value) && result.score == newScore
ensures zsl.mem == old(zsl.mem)
ensures zsl.length == old(zsl.length)
ensures forall v string {zsl.rk[v]} :: v != value && zsl.mem[v] ==> nodeOf(zsl, v) == old(nodeOf(zsl, v))
ensures zscores()
loop 0 invariant 0 - 1 <= i < zsl.level && len(update) == 32 && fresh(update) && update.off == 0
loop 0 invariant 0 <= zpos[ref(x)] <= zsl.length && ref(x) == zsl.nodes[zpos[ref(x)]] && i < hgt(ref(x)) && (zpos[ref(x)] > 0 ==> before(zsl, zpos[ref(x)], curScore, value))
loop 0 invariant i + 1 < zsl.level ==> ref(update[i + 1]) == ref(x)
loop 0 invariant forall j int {update[j]} :: i < j < zsl.level ==> turn(zsl, ref(update[j]), zpos[ref(update[j])], j, curScore, value)
loop 0 decreases i + 1
loop 1 invariant 0 <= i < zsl.level && len(update) == 32 && fresh(update) && update.off == 0
loop 1 invariant 0 <= zpos[ref(x)] <= zsl.length && ref(x) == zsl.nodes[zpos[ref(x)]] && i < hgt(ref(x)) && (zpos[ref(x)] > 0 ==> before(zsl, zpos[ref(x)], curScore, value))
loop 1 invariant forall j int {update[j]} :: i < j < zsl.level ==> turn(zsl, ref(update[j]), zpos[ref(update[j])], j, curScore, value)
loop 1 decreases zsl.length - zpos[ref(x)]
