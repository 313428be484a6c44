// Sorted set commands.
module store datastruct

def otherZSet(k string) bool = has(k) && info(k).Type != KeyTypeSortedSet
def zdom(k string) [string]bool = if isZSet(k) then zslOf(k).mem else emptyset()
def zscore(k string) [string]float = if isZSet(k) then zslOf(k).sc else noScores()
// key k holds exactly the members D with the scores S, or nothing when D is empty
def holdsZSet(k string, D [string]bool, S [string]float) bool = if card(D) == 0 then !has(k) else isZSet(k) && zslOf(k).mem == D && zslOf(k).sc == S

command zscore
props C10
ensures [C20] argc(c) < 2 ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C10 C13] argc(c) >= 2 && !otherZSet(arg(c, 0)) ==> (if zdom(arg(c, 0))[arg(c, 1)] then okBulk(result0, result1, fmtfloat(zscore(arg(c, 0))[arg(c, 1)])) else okNil(result0, result1))
ensures [C15 C14 C10] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command zrank
props C11
ensures [C20] argc(c) < 2 ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C11 C13] argc(c) >= 2 && !otherZSet(arg(c, 0)) && !zdom(arg(c, 0))[arg(c, 1)] ==> okNil(result0, result1)
ensures [C11] argc(c) >= 2 && isZSet(arg(c, 0)) && zdom(arg(c, 0))[arg(c, 1)] ==> (let n = zslOf(arg(c, 0)).rk[arg(c, 1)] in okInt(result0, result1, n - 1) && 1 <= n <= zslOf(arg(c, 0)).length && zat(zslOf(arg(c, 0)), n) == arg(c, 1))
ensures [C15 C14 C11] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command zcard
props C10
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C10 C13] argc(c) >= 1 && !otherZSet(arg(c, 0)) ==> okInt(result0, result1, card(zdom(arg(c, 0))))
ensures [C15 C14 C10] storeSame()
ensures [C20 C19] wfReply(result0, result1)

// bounds of score ranges
def zinf(s string) bool = tolower(s) == "-inf" || tolower(s) == "+inf"
def zopen(s string) bool = !zinf(s) && hasprefix(tolower(s), "(")
def zbound(s string) float = if tolower(s) == "-inf" then inf(0 - 1) else if tolower(s) == "+inf" then inf(1) else pfloat_val(trimprefix(tolower(s), "("))
def zboundOk(s string) bool = zinf(s) || pfloat_ok(trimprefix(tolower(s), "(")) && !nan(zbound(s))
def zboundsOk(c *redis.Command) bool = zboundOk(arg(c, 1)) && zboundOk(arg(c, 2))

func datastruct.handleFloatScoreStr
props C12
ensures [C12 C20] (result2 == nil) == zboundOk(str) && result2 != ErrNil
ensures [C12] zboundOk(str) ==> result0 == zbound(str) && result1 == zopen(str)
ensures [C12] !nan(result0)

command zcount
props C12
ensures [C20] argc(c) < 3 ==> isErr(result1)
ensures [C14] argc(c) >= 3 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C12] argc(c) >= 3 && !has(arg(c, 0)) ==> okInt(result0, result1, 0)
ensures [C12 C20] argc(c) >= 3 && isZSet(arg(c, 0)) && !zboundsOk(c) ==> isErr(result1)
ensures [C12] argc(c) >= 3 && isZSet(arg(c, 0)) && zboundsOk(c) ==> okInt(result0, result1, zhits(zslOf(arg(c, 0)), zbound(arg(c, 1)), zopen(arg(c, 1)), zbound(arg(c, 2)), zopen(arg(c, 2))))
ensures [C15 C14 C12] storeSame()
ensures [C20 C19] wfReply(result0, result1)

// options after the bounds
rec anyLower(a [int]string, o int, n int, w string) bool = if n <= 0 then false else anyLower(a, o, n - 1, w) || tolower(a[o + n - 1]) == w
def zopted(c *redis.Command, w string) bool = anyLower(argArr(c), argOff(c) + 2, argc(c) - 2, w)

// n members from position p on upwards (downwards), each followed by its score if ws
def zup(r *protocol.Response, e error, k string, ws bool, n int, p int) bool = bulkArr(r, e, zrows(ws, n)) && (!ws ==> (forall i int {r.Items[i]} :: 0 <= i < n ==> item(r, i) == zat(zslOf(k), p + i))) && (ws ==> (forall i int {r.Items[2 * i]} :: 0 <= i < n ==> item(r, 2 * i) == zat(zslOf(k), p + i) && item(r, 2 * i + 1) == fmtfloat(scat(zslOf(k), p + i))))
def zdown(r *protocol.Response, e error, k string, ws bool, n int, p int) bool = bulkArr(r, e, zrows(ws, n)) && (!ws ==> (forall i int {r.Items[i]} :: 0 <= i < n ==> item(r, i) == zat(zslOf(k), p - i))) && (ws ==> (forall i int {r.Items[2 * i]} :: 0 <= i < n ==> item(r, 2 * i) == zat(zslOf(k), p - i) && item(r, 2 * i + 1) == fmtfloat(scat(zslOf(k), p - i))))
def zint(c *redis.Command) bool = parse_ok(arg(c, 1)) && parse_ok(arg(c, 2))
def zlen(k string) int = zslOf(k).length

command zrange
props C11 C12
loop 0 invariant 0 <= it <= argc(c) - 2
loop 0 invariant flag == (if anyLower(argArr(c), argOff(c) + 2, it, "withscores") then 1 else 0) + (if anyLower(argArr(c), argOff(c) + 2, it, "byscore") then 2 else 0)
ensures [C20] argc(c) < 3 ==> isErr(result1)
ensures [C14] argc(c) >= 3 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C11 C12] argc(c) >= 3 && !has(arg(c, 0)) ==> okNil(result0, result1)
ensures [C11 C20] argc(c) >= 3 && isZSet(arg(c, 0)) && !zopted(c, "byscore") && !zint(c) ==> isErr(result1)
ensures [C11 C10] argc(c) >= 3 && isZSet(arg(c, 0)) && !zopted(c, "byscore") && zint(c) ==> zup(result0, result1, arg(c, 0), zopted(c, "withscores"), rcount(zlen(arg(c, 0)), parse_val(arg(c, 1)), parse_val(arg(c, 2))), rfrom(zlen(arg(c, 0)), parse_val(arg(c, 1))) + 1)
ensures [C12 C20] argc(c) >= 3 && isZSet(arg(c, 0)) && zopted(c, "byscore") && !zboundsOk(c) ==> isErr(result1)
ensures [C12] argc(c) >= 3 && isZSet(arg(c, 0)) && zopted(c, "byscore") && zboundsOk(c) ==> zup(result0, result1, arg(c, 0), zopted(c, "withscores"), zhits(zslOf(arg(c, 0)), zbound(arg(c, 1)), zopen(arg(c, 1)), zbound(arg(c, 2)), zopen(arg(c, 2))), zbelow(zslOf(arg(c, 0)), zbound(arg(c, 1)), zopen(arg(c, 1))) + 1)
ensures [C15 C14 C11] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command zrangebyscore
props C12
ensures [C20] argc(c) < 3 ==> isErr(result1)
ensures [C14] argc(c) >= 3 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C12] argc(c) >= 3 && !has(arg(c, 0)) ==> okNil(result0, result1)
ensures [C12 C20] argc(c) >= 3 && isZSet(arg(c, 0)) && !zboundsOk(c) ==> isErr(result1)
ensures [C12] argc(c) >= 3 && isZSet(arg(c, 0)) && zboundsOk(c) ==> zup(result0, result1, arg(c, 0), false, zhits(zslOf(arg(c, 0)), zbound(arg(c, 1)), zopen(arg(c, 1)), zbound(arg(c, 2)), zopen(arg(c, 2))), zbelow(zslOf(arg(c, 0)), zbound(arg(c, 1)), zopen(arg(c, 1))) + 1)
ensures [C15 C14 C12] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command zrevrange
props C11
loop 0 invariant 0 <= it <= argc(c) - 2
loop 0 invariant flag == (if anyLower(argArr(c), argOff(c) + 2, it, "withscores") then 1 else 0)
ensures [C20] argc(c) < 3 ==> isErr(result1)
ensures [C14] argc(c) >= 3 && otherZSet(arg(c, 0)) ==> isErr(result1)
ensures [C11] argc(c) >= 3 && !has(arg(c, 0)) ==> okNil(result0, result1)
ensures [C11 C20] argc(c) >= 3 && isZSet(arg(c, 0)) && !zint(c) ==> isErr(result1)
ensures [C11] argc(c) >= 3 && isZSet(arg(c, 0)) && zint(c) ==> zdown(result0, result1, arg(c, 0), zopted(c, "withscores"), rcount(zlen(arg(c, 0)), parse_val(arg(c, 1)), parse_val(arg(c, 2))), zlen(arg(c, 0)) - rfrom(zlen(arg(c, 0)), parse_val(arg(c, 1))))
ensures [C15 C14 C11] storeSame()
ensures [C20 C19] wfReply(result0, result1)

func datastruct.ZRem
inline
loop 0 ghost D [string]bool = zs.zsl.mem
loop 0 ghost S [string]float = zs.zsl.sc
loop 0 invariant 0 <= it <= len(values) && goodZSet(zs)
loop 0 invariant zs.zsl.mem == remset(D, arrayof(values), values.off, it) && zs.zsl.sc == S
loop 0 invariant cnt == card(D) - zs.zsl.length
loop 0 invariant zowned(zs, key)

// s is the sorted set of key k (or will be): its entries and nodes are in order, and so are those of every other key
def zowned(s *zSet, k string) bool = (forall f string {s.zsl.mem[f]} :: s.zsl.mem[f] ==> zentry(s, f) && znode(s.zsl, f)) && (forall j string, f string {has(j), zslOf(j).mem[f]} :: j != k && isZSet(j) && zslOf(j).mem[f] ==> zentry(zsetOf(j), f) && znode(zslOf(j), f)) && (forall j string {has(j)} :: j != k && isZSet(j) ==> ref(zslOf(j)) != ref(s.zsl))

command zrem
props C10
ensures [C20 C10] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 2 && old(otherZSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C10 C16] argc(c) >= 2 && old(!has(arg(c, 0))) ==> okInt(result0, result1, 0) && storeSame()
ensures [C10 C16] argc(c) >= 2 && old(isZSet(arg(c, 0))) ==> holdsZSet(arg(c, 0), remset(old(zdom(arg(c, 0))), argArr(c), argOff(c) + 1, argc(c) - 1), old(zscore(arg(c, 0))))
ensures [C10] argc(c) >= 2 && old(!otherZSet(arg(c, 0))) ==> okInt(result0, result1, card(old(zdom(arg(c, 0)))) - card(zdom(arg(c, 0))))
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// the first n of the elements a[o], a[o-1], ... taken away
rec remback(D [string]bool, a [int]string, o int, n int) [string]bool = if n <= 0 then D else remback(D, a, o, n - 1)[a[o - n + 1] := false]
def zpopped(cnt int, n int) int = if cnt <= 0 then 0 else min2(cnt, n)

func datastruct.ZPopMin
inline
loop 0 ghost D [string]bool = zs.zsl.mem
loop 0 ghost S [string]float = zs.zsl.sc
loop 0 ghost V [int]string = zs.zsl.vals
loop 0 ghost L int = zs.zsl.length
loop 0 invariant 0 <= i && i <= zpopped(cnt, L) && zs.zsl.length == L - i && goodZSet(zs)
loop 0 invariant zs.zsl.mem == remset(D, V, 1, i) && zs.zsl.sc == S
loop 0 invariant forall p int {zs.zsl.vals[p]} :: 1 <= p ==> zs.zsl.vals[p] == V[p + i]
loop 0 invariant len(result) == 2 * i && (i == 0 || fresh(result))
loop 0 invariant forall j int {result[2 * j]} {result[2 * j + 1]} :: 0 <= j < i ==> result[2 * j] == V[j + 1] && result[2 * j + 1] == fmtfloat(S[V[j + 1]])
loop 0 invariant zowned(zs, key)
loop 0 decreases zs.zsl.length

func datastruct.ZPopMax
inline
loop 0 ghost D [string]bool = zs.zsl.mem
loop 0 ghost S [string]float = zs.zsl.sc
loop 0 ghost V [int]string = zs.zsl.vals
loop 0 ghost L int = zs.zsl.length
loop 0 invariant 0 <= i && i <= zpopped(cnt, L) && zs.zsl.length == L - i && goodZSet(zs)
loop 0 invariant zs.zsl.mem == remback(D, V, L, i) && zs.zsl.sc == S
loop 0 invariant forall p int {zs.zsl.vals[p]} :: 1 <= p <= L - i ==> zs.zsl.vals[p] == V[p]
loop 0 invariant len(result) == 2 * i && (i == 0 || fresh(result))
loop 0 invariant forall j int {result[2 * j]} {result[2 * j + 1]} :: 0 <= j < i ==> result[2 * j] == V[L - j] && result[2 * j + 1] == fmtfloat(S[V[L - j]])
loop 0 invariant zowned(zs, key)
loop 0 decreases zs.zsl.length

def zpopBad(c *redis.Command) bool = argc(c) >= 2 && !parse_ok(arg(c, 1))
def zpopAsk(c *redis.Command) int = if argc(c) >= 2 then parse_val(arg(c, 1)) else 1
def zpopN(c *redis.Command) int = zpopped(zpopAsk(c), old(zslOf(arg(c, 0)).length))

command zpopmin
props C13
ensures [C20 C13] argc(c) < 1 || zpopBad(c) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 1 && old(otherZSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C13] argc(c) >= 1 && !zpopBad(c) && old(!has(arg(c, 0))) ==> okArr(result0, result1, 0) && storeSame()
ensures [C13] argc(c) >= 1 && !zpopBad(c) && old(isZSet(arg(c, 0))) ==> bulkArr(result0, result1, 2 * zpopN(c)) && (forall i int {result0.Items[2 * i]} :: 0 <= i < zpopN(c) ==> item(result0, 2 * i) == old(zslOf(arg(c, 0)).vals)[i + 1] && item(result0, 2 * i + 1) == fmtfloat(old(zscore(arg(c, 0)))[old(zslOf(arg(c, 0)).vals)[i + 1]]))
ensures [C13 C16 C10] argc(c) >= 1 && !zpopBad(c) && old(isZSet(arg(c, 0))) ==> holdsZSet(arg(c, 0), remset(old(zdom(arg(c, 0))), old(zslOf(arg(c, 0)).vals), 1, zpopN(c)), old(zscore(arg(c, 0)))) && card(zdom(arg(c, 0))) == card(old(zdom(arg(c, 0)))) - zpopN(c)
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command zpopmax
props C13
ensures [C20 C13] argc(c) < 1 || zpopBad(c) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 1 && old(otherZSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C13] argc(c) >= 1 && !zpopBad(c) && old(!has(arg(c, 0))) ==> okArr(result0, result1, 0) && storeSame()
ensures [C13] argc(c) >= 1 && !zpopBad(c) && old(isZSet(arg(c, 0))) ==> bulkArr(result0, result1, 2 * zpopN(c)) && (let L = old(zslOf(arg(c, 0)).length) in forall i int {result0.Items[2 * i]} :: 0 <= i < zpopN(c) ==> item(result0, 2 * i) == old(zslOf(arg(c, 0)).vals)[L - i] && item(result0, 2 * i + 1) == fmtfloat(old(zscore(arg(c, 0)))[old(zslOf(arg(c, 0)).vals)[L - i]]))
ensures [C13 C16 C10] argc(c) >= 1 && !zpopBad(c) && old(isZSet(arg(c, 0))) ==> holdsZSet(arg(c, 0), remback(old(zdom(arg(c, 0))), old(zslOf(arg(c, 0)).vals), old(zslOf(arg(c, 0)).length), zpopN(c)), old(zscore(arg(c, 0)))) && card(zdom(arg(c, 0))) == card(old(zdom(arg(c, 0)))) - zpopN(c)
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// Adding members v[0..n-1] with scores s[0..n-1] in order: the members, their scores and how many were added or re-scored.
// xx: only members that exist; nx: only new ones; inc: the score is added to the present one.
def rescore(inc bool, s float, cur float) float = if inc then fadd(s, cur) else s
// the change is refused (not a number) or is none
def zkeep(s float, cur float) bool = nan(s) || feq(s, cur)
rec zD(D [string]bool, xx bool, v [int]string, n int) [string]bool = if n <= 0 || xx then D else zD(D, xx, v, n - 1)[v[n - 1] := true]
rec zS(D [string]bool, S [string]float, xx bool, nx bool, inc bool, v [int]string, s [int]float, n int) [string]float = if n <= 0 then S else let P = zS(D, S, xx, nx, inc, v, s, n - 1) in let m = v[n - 1] in if zD(D, xx, v, n - 1)[m] then (if nx || zkeep(rescore(inc, s[n - 1], P[m]), P[m]) then P else P[m := rescore(inc, s[n - 1], P[m])]) else if xx then P else P[m := s[n - 1]]
rec zC(D [string]bool, S [string]float, xx bool, nx bool, inc bool, v [int]string, s [int]float, n int) int = if n <= 0 then 0 else let P = zS(D, S, xx, nx, inc, v, s, n - 1) in let m = v[n - 1] in zC(D, S, xx, nx, inc, v, s, n - 1) + (if zD(D, xx, v, n - 1)[m] then (if nx || zkeep(rescore(inc, s[n - 1], P[m]), P[m]) then 0 else 1) else if xx then 0 else 1)
def zvals(ms []*ZSetMember) [int]string = lambda p int :: ms[p].Value
def zscs(ms []*ZSetMember) [int]float = lambda p int :: ms[p].Score
def bit(n int, m int) bool = (n / m) % 2 == 1

func datastruct.ZAdd
inline
loop 0 ghost D [string]bool = zs.zsl.mem
loop 0 ghost S [string]float = zs.zsl.sc
loop 0 invariant 0 <= it <= len(members) && goodZSet(zs)
loop 0 invariant zs.zsl.mem == zD(D, bit(flag, 4), zvals(members), it)
loop 0 invariant zs.zsl.sc == zS(D, S, bit(flag, 4), bit(flag, 2), bit(flag, 1), zvals(members), zscs(members), it)
loop 0 invariant 0 <= cnt <= it
loop 0 invariant cnt == zC(D, S, bit(flag, 4), bit(flag, 2), bit(flag, 1), zvals(members), zscs(members), it)
loop 0 invariant zowned(zs, key)

// The arguments after the key: options in front of scores, each score followed by its member.
// zst is 1 when the next argument is a member
def zoption(s string) bool = tolower(s) == "xx" || tolower(s) == "nx" || tolower(s) == "incr"
rec zst(a [int]string, o int, n int) int = if n <= 0 || zst(a, o, n - 1) == 1 || zoption(a[o + n]) then 0 else 1
rec zopt(a [int]string, o int, n int, w string) bool = if n <= 0 then false else zopt(a, o, n - 1, w) || zst(a, o, n - 1) == 0 && tolower(a[o + n]) == w
rec zbad(a [int]string, o int, n int) bool = if n <= 0 then false else zbad(a, o, n - 1) || zst(a, o, n - 1) == 0 && !zoption(a[o + n]) && (!pfloat_ok(a[o + n]) || nan(pfloat_val(a[o + n])))
// how many of the first n are members
rec zms(a [int]string, o int, n int) int = if n <= 0 then 0 else zms(a, o, n - 1) + zst(a, o, n - 1)
rec pD(D [string]bool, xx bool, a [int]string, o int, n int) [string]bool = if n <= 0 then D else if zst(a, o, n - 1) == 1 && !xx then pD(D, xx, a, o, n - 1)[a[o + n] := true] else pD(D, xx, a, o, n - 1)
rec pS(D [string]bool, S [string]float, xx bool, nx bool, inc bool, a [int]string, o int, n int) [string]float = if n <= 0 then S else let P = pS(D, S, xx, nx, inc, a, o, n - 1) in let m = a[o + n] in let s = pfloat_val(a[o + n - 1]) in if zst(a, o, n - 1) != 1 then P else if pD(D, xx, a, o, n - 1)[m] then (if nx || zkeep(rescore(inc, s, P[m]), P[m]) then P else P[m := rescore(inc, s, P[m])]) else if xx then P else P[m := s]
rec pC(D [string]bool, S [string]float, xx bool, nx bool, inc bool, a [int]string, o int, n int) int = if n <= 0 then 0 else let P = pS(D, S, xx, nx, inc, a, o, n - 1) in let m = a[o + n] in let s = pfloat_val(a[o + n - 1]) in pC(D, S, xx, nx, inc, a, o, n - 1) + (if zst(a, o, n - 1) != 1 then 0 else if pD(D, xx, a, o, n - 1)[m] then (if nx || zkeep(rescore(inc, s, P[m]), P[m]) then 0 else 1) else if xx then 0 else 1)
// v and s list the members among the first n arguments
def zlisted(a [int]string, o int, n int, v [int]string, s [int]float) bool = forall q int {zms(a, o, q)} :: 0 <= q < n && zst(a, o, q) == 1 ==> v[zms(a, o, q)] == a[o + q + 1] && s[zms(a, o, q)] == pfloat_val(a[o + q])
lemma zst_range n 0 : forall a [int]string, o int, n int {zst(a, o, n)} :: 0 <= zst(a, o, n) <= 1
lemma zms_range n 0 : forall a [int]string, o int, n int {zms(a, o, n)} :: 0 <= zms(a, o, n)
lemma zbad_more n 0 : forall a [int]string, o int, n int, m int {zbad(a, o, n), zbad(a, o, m)} :: m <= n && zbad(a, o, m) ==> zbad(a, o, n)
lemma pz_D n 0 : forall D [string]bool, xx bool, a [int]string, o int, n int, v [int]string {pD(D, xx, a, o, n), zD(D, xx, v, zms(a, o, n))} :: (forall q int {zms(a, o, q)} :: 0 <= q < n && zst(a, o, q) == 1 ==> v[zms(a, o, q)] == a[o + q + 1]) ==> pD(D, xx, a, o, n) == zD(D, xx, v, zms(a, o, n))
lemma pz_S n 0 : forall D [string]bool, S [string]float, xx bool, nx bool, inc bool, a [int]string, o int, n int, v [int]string, s [int]float {pS(D, S, xx, nx, inc, a, o, n), zS(D, S, xx, nx, inc, v, s, zms(a, o, n))} :: zlisted(a, o, n, v, s) ==> pS(D, S, xx, nx, inc, a, o, n) == zS(D, S, xx, nx, inc, v, s, zms(a, o, n))
lemma pz_C n 0 : forall D [string]bool, S [string]float, xx bool, nx bool, inc bool, a [int]string, o int, n int, v [int]string, s [int]float {pC(D, S, xx, nx, inc, a, o, n), zC(D, S, xx, nx, inc, v, s, zms(a, o, n))} :: zlisted(a, o, n, v, s) ==> pC(D, S, xx, nx, inc, a, o, n) == zC(D, S, xx, nx, inc, v, s, zms(a, o, n))

// a well-formed argument vector and what it asks for
def zaddOk(c *redis.Command) bool = argc(c) >= 3 && zst(argArr(c), argOff(c), argc(c) - 2) == 1 && !zbad(argArr(c), argOff(c), argc(c) - 1)
def zasks(c *redis.Command, w string) bool = zopt(argArr(c), argOff(c), argc(c) - 1, w)
def zaddD(c *redis.Command) [string]bool = pD(old(zdom(arg(c, 0))), zasks(c, "xx"), argArr(c), argOff(c), argc(c) - 1)
def zaddS(c *redis.Command) [string]float = pS(old(zdom(arg(c, 0))), old(zscore(arg(c, 0))), zasks(c, "xx"), zasks(c, "nx"), zasks(c, "incr"), argArr(c), argOff(c), argc(c) - 1)
def zaddC(c *redis.Command) int = pC(old(zdom(arg(c, 0))), old(zscore(arg(c, 0))), zasks(c, "xx"), zasks(c, "nx"), zasks(c, "incr"), argArr(c), argOff(c), argc(c) - 1)

command zadd
props C10
witness own = ownNow(arg(c, 0))
loop 0 invariant 1 <= i <= argc(c) && zst(argArr(c), argOff(c), i - 1) == 0 && !zbad(argArr(c), argOff(c), i - 1) && (i == argc(c) ==> zst(argArr(c), argOff(c), i - 2) == 1)
loop 0 invariant len(members) == zms(argArr(c), argOff(c), i - 1) && fresh(members)
loop 0 invariant flag == (if zopt(argArr(c), argOff(c), i - 1, "incr") then 1 else 0) + (if zopt(argArr(c), argOff(c), i - 1, "nx") then 2 else 0) + (if zopt(argArr(c), argOff(c), i - 1, "xx") then 4 else 0)
loop 0 invariant forall j int {members[j]} :: 0 <= j < len(members) ==> fresh(members[j]) && !nan(members[j].Score)
loop 0 invariant forall q int {zms(argArr(c), argOff(c), q)} :: 0 <= q < i - 1 && zst(argArr(c), argOff(c), q) == 1 ==> zms(argArr(c), argOff(c), q) < len(members) && members[zms(argArr(c), argOff(c), q)].Value == arg(c, q + 1) && members[zms(argArr(c), argOff(c), q)].Score == pfloat_val(arg(c, q))
loop 0 invariant i < argc(c) && zbad(argArr(c), argOff(c), i) ==> zbad(argArr(c), argOff(c), argc(c) - 1)
loop 0 decreases argc(c) - i
ensures [C20 C10] !zaddOk(c) ==> isErr(result1) && storeSame()
ensures [C14] zaddOk(c) && old(otherZSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C10] zaddOk(c) && old(!otherZSet(arg(c, 0))) ==> okInt(result0, result1, zaddC(c)) && holdsZSet(arg(c, 0), zaddD(c), zaddS(c))
ensures [C15] zaddOk(c) ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// ZINCR: one member's score
def zincrOk(c *redis.Command) bool = argc(c) >= 3 && pfloat_ok(arg(c, 1)) && !nan(pfloat_val(arg(c, 1)))
def zhas(k string, m string) bool = isZSet(k) && zslOf(k).mem[m]
def zsum(k string, m string, x float) float = if zhas(k, m) then fadd(x, zslOf(k).sc[m]) else x
def znewScore(k string, m string, x float) float = if zhas(k, m) && feq(fadd(x, zslOf(k).sc[m]), zslOf(k).sc[m]) then zslOf(k).sc[m] else zsum(k, m, x)

command zincr
props C10
witness own = ownNow(arg(c, 0))
ensures [C20 C10] !zincrOk(c) ==> isErr(result1) && storeSame()
ensures [C14] zincrOk(c) && old(otherZSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C10] zincrOk(c) && old(!otherZSet(arg(c, 0)) && nan(zsum(arg(c, 0), arg(c, 2), pfloat_val(arg(c, 1))))) ==> isErr(result1) && storeSame()
ensures [C10] zincrOk(c) && old(!otherZSet(arg(c, 0)) && !nan(zsum(arg(c, 0), arg(c, 2), pfloat_val(arg(c, 1))))) ==> (let s = old(znewScore(arg(c, 0), arg(c, 2), pfloat_val(arg(c, 1)))) in okBulk(result0, result1, fmtfloat(s)) && isZSet(arg(c, 0)) && zdom(arg(c, 0)) == old(zdom(arg(c, 0)))[arg(c, 2) := true] && zscore(arg(c, 0)) == old(zscore(arg(c, 0)))[arg(c, 2) := s])
ensures [C15] zincrOk(c) ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)
