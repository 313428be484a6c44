// Set commands.
module store datastruct

def otherSet(k string) bool = has(k) && info(k).Type != KeyTypeSet
def setdom(k string) [string]bool = if isSet(k) then mem(setOf(k)) else emptyset()
// key k holds exactly the set D, or nothing when D is empty
def holdsSet(k string, D [string]bool) bool = if card(D) == 0 then !has(k) else isSet(k) && mem(setOf(k)) == D

// D with (without) the first n elements of a from offset o
rec addset(D [string]bool, a [int]string, o int, n int) [string]bool = if n <= 0 then D else addset(D, a, o, n - 1)[a[o + n - 1] := true]
rec remset(D [string]bool, a [int]string, o int, n int) [string]bool = if n <= 0 then D else remset(D, a, o, n - 1)[a[o + n - 1] := false]
def argArr(c *redis.Command) [int]string = old(arrayof(c.Values))
def argOff(c *redis.Command) int = old(c.Values.off)

func datastruct.SAdd
inline
loop 0 invariant 0 <= it <= len(values) && goodSet(s) && mem(s) == addset(dom0, arrayof(values), values.off, it) && cnt == s.length - card(dom0) && (it > 0 ==> s.length > 0)
loop 0 ghost dom0 [string]bool = mem(s)

func datastruct.SRem
inline
loop 0 invariant 0 <= it <= len(values) && goodSet(s) && mem(s) == remset(dom0, arrayof(values), values.off, it) && cnt == card(dom0) - s.length
loop 0 ghost dom0 [string]bool = mem(s)

command sadd
props C08
witness own = ownNow(arg(c, 0))
ensures [C20 C08] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 2 && old(otherSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C08] argc(c) >= 2 && old(!otherSet(arg(c, 0))) ==> holdsSet(arg(c, 0), addset(old(setdom(arg(c, 0))), argArr(c), argOff(c) + 1, argc(c) - 1))
ensures [C08] argc(c) >= 2 && old(!otherSet(arg(c, 0))) ==> okInt(result0, result1, card(setdom(arg(c, 0))) - card(old(setdom(arg(c, 0)))))
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command srem
props C08
ensures [C20 C08] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 2 && old(otherSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C08 C16] argc(c) >= 2 && old(!has(arg(c, 0))) ==> okInt(result0, result1, 0) && storeSame()
ensures [C08 C16] argc(c) >= 2 && old(isSet(arg(c, 0))) ==> holdsSet(arg(c, 0), remset(old(setdom(arg(c, 0))), argArr(c), argOff(c) + 1, argc(c) - 1))
ensures [C08] argc(c) >= 2 && old(!otherSet(arg(c, 0))) ==> okInt(result0, result1, card(old(setdom(arg(c, 0)))) - card(setdom(arg(c, 0))))
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command scard
props C08
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherSet(arg(c, 0)) ==> isErr(result1)
ensures [C08] argc(c) >= 1 && !otherSet(arg(c, 0)) ==> okInt(result0, result1, card(setdom(arg(c, 0))))
ensures [C15 C14 C08] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command sismember
props C08
ensures [C20] argc(c) < 2 ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherSet(arg(c, 0)) ==> isErr(result1)
ensures [C08] argc(c) >= 2 && !otherSet(arg(c, 0)) ==> okInt(result0, result1, if setdom(arg(c, 0))[arg(c, 1)] then 1 else 0)
ensures [C15 C14 C08] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command smembers
props C08
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherSet(arg(c, 0)) ==> isErr(result1)
ensures [C08] argc(c) >= 1 && !otherSet(arg(c, 0)) ==> enumArr(result0, result1, setdom(arg(c, 0)))
ensures [C15 C14 C08] storeSame()
ensures [C20 C19] wfReply(result0, result1)

// s was removed from a set
def without(D [string]bool, x string) [string]bool = D[x := false]
def moved(c *redis.Command) bool = argc(c) >= 3 && old(setdom(arg(c, 0)))[arg(c, 2)] && old(!otherSet(arg(c, 1)))

command smove
props C08
witness own = ownNow(arg(c, 1))
ensures [C20 C08] argc(c) < 3 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 3 && old(otherSet(arg(c, 0)) || otherSet(arg(c, 1))) ==> isErr(result1) && storeSame()
ensures [C08] argc(c) >= 3 && old(!otherSet(arg(c, 0)) && !otherSet(arg(c, 1)) && !setdom(arg(c, 0))[arg(c, 2)]) ==> okInt(result0, result1, 0) && storeSame()
ensures [C08] moved(c) ==> okInt(result0, result1, 1)
ensures [C08 C16] moved(c) && arg(c, 0) != arg(c, 1) ==> holdsSet(arg(c, 0), without(old(setdom(arg(c, 0))), arg(c, 2))) && holdsSet(arg(c, 1), old(setdom(arg(c, 1)))[arg(c, 2) := true])
ensures [C08] moved(c) && arg(c, 0) == arg(c, 1) ==> holdsSet(arg(c, 0), old(setdom(arg(c, 0))))
ensures [C15] argc(c) >= 3 ==> (forall j string {has(j)} :: j != arg(c, 0) && j != arg(c, 1) ==> same(j))
ensures [C20 C19] wfReply(result0, result1)

func datastruct.set.sPop
inline
range 0 invariant goodSet(s) && (len(result) == 0 || fresh(result)) && len(result) == card(dom0) - card(mem(s)) && cnt == old(cnt) - len(result) && (len(result) == 0 || cnt >= 0)
range 0 invariant forall i int {result[i]} :: 0 <= i < len(result) ==> dom0[result[i]] && !mem(s)[result[i]]
range 0 invariant forall i int, j int {result[i], result[j]} :: 0 <= i < j < len(result) ==> result[i] != result[j]
range 0 invariant forall k string {visited[k]} :: visited[k] ==> !mem(s)[k]

def spopBad(c *redis.Command) bool = argc(c) >= 2 && !parse_ok(arg(c, 1))
def spopN(c *redis.Command) int = if popAsk(c) <= 0 then 0 else min2(popAsk(c), card(old(setdom(arg(c, 0)))))

command spop
props C08
ensures [C20 C08] argc(c) < 1 || spopBad(c) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 1 && old(otherSet(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C08 C16] argc(c) >= 1 && !spopBad(c) && old(!has(arg(c, 0))) ==> bulkArr(result0, result1, 0) && storeSame()
ensures [C08] argc(c) >= 1 && !spopBad(c) && old(isSet(arg(c, 0))) ==> bulkArr(result0, result1, spopN(c))
ensures [C08] argc(c) >= 1 && !spopBad(c) && old(isSet(arg(c, 0))) ==> (forall i int {item(result0, i)} :: 0 <= i < spopN(c) ==> old(setdom(arg(c, 0)))[item(result0, i)] && !setdom(arg(c, 0))[item(result0, i)])
ensures [C08] argc(c) >= 1 && !spopBad(c) && old(isSet(arg(c, 0))) ==> (forall i int, j int {result0.Items[i], result0.Items[j]} :: 0 <= i < j < spopN(c) ==> item(result0, i) != item(result0, j))
ensures [C08 C16] argc(c) >= 1 && !spopBad(c) && old(isSet(arg(c, 0))) ==> card(setdom(arg(c, 0))) == card(old(setdom(arg(c, 0)))) - spopN(c) && holdsSet(arg(c, 0), setdom(arg(c, 0)))
ensures [C08] argc(c) >= 1 && !spopBad(c) && old(isSet(arg(c, 0))) ==> (forall x string {setdom(arg(c, 0))[x]} :: setdom(arg(c, 0))[x] ==> old(setdom(arg(c, 0)))[x])
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// set algebra
// none of the n keys from offset o of a is of another kind
def noneOther(a [int]string, o int, n int) bool = forall p int {a[p]} :: o <= p < o + n ==> !otherSet(a[p])
def someOther(a [int]string, o int, n int) bool = exists p int :: o <= p < o + n && otherSet(a[p])
def plusSet(a [string]bool, b [string]bool) [string]bool
axiom forall a [string]bool, b [string]bool, k string {plusSet(a, b)[k]} :: plusSet(a, b)[k] == (a[k] || b[k])
def commonSet(a [string]bool, b [string]bool) [string]bool
axiom forall a [string]bool, b [string]bool, k string {commonSet(a, b)[k]} :: commonSet(a, b)[k] == (a[k] && b[k])

// the first n of the sets D[a[o]], D[a[o+1]], ... together
rec allDiff(D [string][string]bool, a [int]string, o int, n int) [string]bool = if n <= 1 then D[a[o]] else lessSet(allDiff(D, a, o, n - 1), D[a[o + n - 1]])
rec allInter(D [string][string]bool, a [int]string, o int, n int) [string]bool = if n <= 1 then D[a[o]] else commonSet(allInter(D, a, o, n - 1), D[a[o + n - 1]])
rec allUnion(D [string][string]bool, a [int]string, o int, n int) [string]bool = if n <= 1 then D[a[o]] else plusSet(allUnion(D, a, o, n - 1), D[a[o + n - 1]])
// what every key holds as a set
def sets() [string][string]bool = lambda k string :: setdom(k)
// newer: the object was made by this command
def newSetObj(s *set) bool = goodSet(s) && fresh(s) && fresh(s.m)

func datastruct.sDiff
inline
range 0 invariant newSetObj(result) && (forall k string {mem(result)[k]} {visited[k]} :: mem(result)[k] == (visited[k] && !mem(s2)[k]))

func datastruct.sInter
inline
range 0 invariant newSetObj(result) && (forall k string {mem(result)[k]} {visited[k]} :: mem(result)[k] == (visited[k] && mem(s2)[k]))

func datastruct.sUnion
inline
loop 0 unroll 4
range 0 ghost U [string]bool = mem(result)
range 0 invariant newSetObj(result) && (forall k string {mem(result)[k]} {visited[k]} :: mem(result)[k] == (visited[k] || U[k]))

func datastruct.SDiff
inline
loop 0 invariant 0 <= it <= len(keys) && noneOther(arrayof(keys), keys.off, it) && (it == 0 ==> ref(result) == 0)
loop 0 invariant it > 0 ==> goodSet(result) && mem(result) == allDiff(old(sets()), arrayof(keys), keys.off, it)

command sdiff
props C09
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14 C09] someOther(argArr(c), argOff(c), argc(c)) ==> isErr(result1)
ensures [C09] argc(c) >= 1 && noneOther(argArr(c), argOff(c), argc(c)) ==> enumArr(result0, result1, allDiff(old(sets()), argArr(c), argOff(c), argc(c)))
ensures [C15 C14 C09] storeSame()
ensures [C20 C19] wfReply(result0, result1)

func datastruct.SInter
inline
loop 0 invariant 0 <= it <= len(keys) && noneOther(arrayof(keys), keys.off, it) && (it == 0 ==> ref(result) == 0)
loop 0 invariant it > 0 ==> goodSet(result) && mem(result) == allInter(old(sets()), arrayof(keys), keys.off, it)

func datastruct.SUnion
inline
loop 0 invariant 0 <= it <= len(keys) && noneOther(arrayof(keys), keys.off, it) && (it == 0 ==> ref(result) == 0)
loop 0 invariant it > 0 ==> goodSet(result) && mem(result) == allUnion(old(sets()), arrayof(keys), keys.off, it)

command sinter
props C09
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14 C09] someOther(argArr(c), argOff(c), argc(c)) ==> isErr(result1)
ensures [C09] argc(c) >= 1 && noneOther(argArr(c), argOff(c), argc(c)) ==> enumArr(result0, result1, allInter(old(sets()), argArr(c), argOff(c), argc(c)))
ensures [C15 C14 C09] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command sunion
props C09
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14 C09] someOther(argArr(c), argOff(c), argc(c)) ==> isErr(result1)
ensures [C09] argc(c) >= 1 && noneOther(argArr(c), argOff(c), argc(c)) ==> enumArr(result0, result1, allUnion(old(sets()), argArr(c), argOff(c), argc(c)))
ensures [C15 C14 C09] storeSame()
ensures [C20 C19] wfReply(result0, result1)

// the STORE forms: the first argument is the destination, which may hold anything
func datastruct.SDiffStore
inline
loop 0 invariant 0 <= it <= len(keys) && noneOther(arrayof(keys), keys.off, it) && (it == 0 ==> ref(result) == 0)
loop 0 invariant it > 0 ==> newSetObj(result) && mem(result) == allDiff(old(sets()), arrayof(keys), keys.off, it)

func datastruct.SInterStore
inline
loop 0 invariant 0 <= it <= len(keys) && noneOther(arrayof(keys), keys.off, it) && (it == 0 ==> ref(result) == 0)
loop 0 invariant it > 0 ==> newSetObj(result) && mem(result) == allInter(old(sets()), arrayof(keys), keys.off, it)

func datastruct.SUnionStore
inline
loop 0 invariant 0 <= it <= len(keys) && noneOther(arrayof(keys), keys.off, it) && (it == 0 ==> ref(result) == 0)
loop 0 invariant it > 0 ==> newSetObj(result) && mem(result) == allUnion(old(sets()), arrayof(keys), keys.off, it)

def srcOther(c *redis.Command) bool = old(someOther(arrayof(c.Values), c.Values.off + 1, len(c.Values) - 1))
def srcOk(c *redis.Command) bool = old(noneOther(arrayof(c.Values), c.Values.off + 1, len(c.Values) - 1))

command sdiffstore
props C09
witness own = ownNow(arg(c, 0))
ensures [C20 C09] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14 C09] argc(c) >= 2 && srcOther(c) ==> isErr(result1) && storeSame()
ensures [C09 C16] argc(c) >= 2 && srcOk(c) ==> (let D = allDiff(old(sets()), argArr(c), argOff(c) + 1, argc(c) - 1) in okInt(result0, result1, card(D)) && holdsSet(arg(c, 0), D))
ensures [C15 C09] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command sinterstore
props C09
witness own = ownNow(arg(c, 0))
ensures [C20 C09] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14 C09] argc(c) >= 2 && srcOther(c) ==> isErr(result1) && storeSame()
ensures [C09 C16] argc(c) >= 2 && srcOk(c) ==> (let D = allInter(old(sets()), argArr(c), argOff(c) + 1, argc(c) - 1) in okInt(result0, result1, card(D)) && holdsSet(arg(c, 0), D))
ensures [C15 C09] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command sunionstore
props C09
witness own = ownNow(arg(c, 0))
ensures [C20 C09] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14 C09] argc(c) >= 2 && srcOther(c) ==> isErr(result1) && storeSame()
ensures [C09 C16] argc(c) >= 2 && srcOk(c) ==> (let D = allUnion(old(sets()), argArr(c), argOff(c) + 1, argc(c) - 1) in okInt(result0, result1, card(D)) && holdsSet(arg(c, 0), D))
ensures [C15 C09] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)
