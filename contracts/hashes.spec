// Hash commands.
module store datastruct

def otherHash(k string) bool = has(k) && info(k).Type != KeyTypeHashTable
def hdom(k string) [string]bool = if isHash(k) then flds(hashOf(k)) else emptyset()
def hval(k string, f string) any = fval(hashOf(k))[f]
def hasField(k string, f string) bool = isHash(k) && flds(hashOf(k))[f]
def htext(k string, f string) string = text(hval(k, f))
// s is exactly the decimal text of a 64-bit integer / the shortest text of a float
def canonInt(s string) bool = parse_ok(s) && fmtint(parse_val(s)) == s
def canonFloat(s string) bool = pfloat_ok(s) && fmtfloat(pfloat_val(s)) == s
// how a given text is stored
def stored(s string) any = if canonInt(s) then iface64(parse_val(s)) else if canonFloat(s) then iface(pfloat_val(s)) else iface(s)

func util.ConvertToValidValue
props C07
ensures [C07] result == stored(s)
ensures [C07] fieldKind(result) && text(result) == s

command hget
props C06 C07
ensures [C20] argc(c) < 2 ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06 C07] argc(c) >= 2 && hasField(arg(c, 0), arg(c, 1)) ==> okBulk(result0, result1, htext(arg(c, 0), arg(c, 1)))
ensures [C06] argc(c) >= 2 && !otherHash(arg(c, 0)) && !hasField(arg(c, 0), arg(c, 1)) ==> okNil(result0, result1)
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command hexists
props C06
ensures [C20] argc(c) < 2 ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06] argc(c) >= 2 && !otherHash(arg(c, 0)) ==> okInt(result0, result1, if hasField(arg(c, 0), arg(c, 1)) then 1 else 0)
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command hlen
props C06
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06] argc(c) >= 1 && !otherHash(arg(c, 0)) ==> okInt(result0, result1, card(hdom(arg(c, 0))))
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command hkeys
props C06
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06] argc(c) >= 1 && !otherHash(arg(c, 0)) ==> enumArr(result0, result1, hdom(arg(c, 0)))
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

// the order in which HVALS lists the fields
ghostvar order [int]string

func datastruct.hashTable.values
inline
range 0 invariant len(result) == it && (it == 0 || fresh(result))
range 0 invariant forall i int {order[i]} :: 0 <= i < it ==> visited[order[i]]
range 0 invariant forall i int {result[i]} :: 0 <= i < it ==> result[i] == text(fval(h)[order[i]])
range 0 invariant forall i int, j int {order[i], order[j]} :: 0 <= i < j < it ==> order[i] != order[j]
range 0 step order = order[len(result) - 1 := itkey]

command hvals
props C06 C07
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06] argc(c) >= 1 && !otherHash(arg(c, 0)) ==> bulkArr(result0, result1, card(hdom(arg(c, 0))))
ensures [C06] argc(c) >= 1 && isHash(arg(c, 0)) ==> (forall i int, j int {order[i], order[j]} :: 0 <= i < j < card(hdom(arg(c, 0))) ==> order[i] != order[j])
ensures [C06 C07] argc(c) >= 1 && isHash(arg(c, 0)) ==> (forall i int {result0.Items[i]} :: 0 <= i < card(hdom(arg(c, 0))) ==> hdom(arg(c, 0))[order[i]] && item(result0, i) == htext(arg(c, 0), order[i]))
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command hgetall
props C06 C07
loop 0 invariant forall p int {values[p]} :: 0 <= p < 2 * it ==> values[p] is string
loop 0 invariant len(values) == 2 * len(m) && fresh(values) && i == 2 * it
loop 0 invariant forall j int {values[2 * j]} {values[2 * j + 1]} :: 0 <= j < it ==> values[2 * j] is string && values[2 * j + 1] is string && visited[values[2 * j].(string)] && values[2 * j + 1].(string) == text(valof(m)[values[2 * j].(string)])
loop 0 invariant forall a int, b int {values[2 * a], values[2 * b]} :: 0 <= a < b < it ==> values[2 * a] != values[2 * b]
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06] argc(c) >= 1 && !has(arg(c, 0)) ==> okNil(result0, result1)
ensures [C06] argc(c) >= 1 && isHash(arg(c, 0)) ==> bulkArr(result0, result1, 2 * card(hdom(arg(c, 0))))
ensures [C06 C07] argc(c) >= 1 && isHash(arg(c, 0)) ==> (forall j int {result0.Items[2 * j]} :: 0 <= j < card(hdom(arg(c, 0))) ==> hdom(arg(c, 0))[item(result0, 2 * j)] && item(result0, 2 * j + 1) == htext(arg(c, 0), item(result0, 2 * j)))
ensures [C06] argc(c) >= 1 && isHash(arg(c, 0)) ==> (forall a int, b int {result0.Items[2 * a], result0.Items[2 * b]} :: 0 <= a < b < card(hdom(arg(c, 0))) ==> item(result0, 2 * a) != item(result0, 2 * b))
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

func datastruct.hashTable.mGet
inline
loop 0 invariant 0 <= it <= len(fields) && len(result) == len(fields) && fresh(result)
loop 0 invariant forall i int {result[i]} :: 0 <= i < it ==> result[i] == (if flds(h)[fields[i]] then iface(text(fval(h)[fields[i]])) else nil)

command hmget
props C06 C07
ensures [C20] argc(c) < 2 ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherHash(arg(c, 0)) ==> isErr(result1)
ensures [C06] argc(c) >= 2 && !otherHash(arg(c, 0)) ==> okArr(result0, result1, argc(c) - 1)
ensures [C06 C07] argc(c) >= 2 && !otherHash(arg(c, 0)) ==> (forall i int {result0.Items[i]} :: 0 <= i < argc(c) - 1 ==> (if hasField(arg(c, 0), arg(c, i + 1)) then itemStr(result0, i, htext(arg(c, 0), arg(c, i + 1))) else itemNil(result0, i)))
ensures [C15 C14 C06] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command hdel
props C06
ensures [C20 C06] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 2 && old(otherHash(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C06] argc(c) >= 2 && old(!otherHash(arg(c, 0)) && !hasField(arg(c, 0), arg(c, 1))) ==> okInt(result0, result1, 0) && storeSame()
ensures [C06] argc(c) >= 2 && old(hasField(arg(c, 0), arg(c, 1))) ==> okInt(result0, result1, 1)
ensures [C06 C16] argc(c) >= 2 && old(hasField(arg(c, 0), arg(c, 1))) ==> (if old(card(hdom(arg(c, 0)))) == 1 then !has(arg(c, 0)) else isHash(arg(c, 0)) && hdom(arg(c, 0)) == old(hdom(arg(c, 0)))[arg(c, 1) := false] && fval(hashOf(arg(c, 0))) == old(fval(hashOf(arg(c, 0)))))
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)


// fields given in order: the last of the first n keys that is f; -1 if none
rec lastKey(K [int]string, n int, f string) int = if n <= 0 then 0 - 1 else if K[n - 1] == f then n - 1 else lastKey(K, n - 1, f)
lemma last_range n 0 : forall K [int]string, n int, f string {lastKey(K, n, f)} :: 0 - 1 <= lastKey(K, n, f) && (n >= 0 ==> lastKey(K, n, f) < n) && (lastKey(K, n, f) >= 0 ==> K[lastKey(K, n, f)] == f)
lemma last_kv n 0 : forall K [int]string, a [int]string, o int, n int, f string {lastKey(K, n, f), lastPair(a, o, n, f)} :: (forall j int {K[j]} :: 0 <= j < n ==> K[j] == a[o + 2 * j]) ==> lastKey(K, n, f) == lastPair(a, o, n, f)
def keysOf(kvs []*KV) [int]string = lambda p int :: kvs[p].Key
def hvals(k string) [string]any = if isHash(k) then fval(hashOf(k)) else noVals()
def noVals() [string]any

func datastruct.HSet
inline
loop 0 ghost D [string]bool = flds(h)
loop 0 ghost V [string]any = fval(h)
loop 0 invariant 0 <= it <= len(kvs) && goodHash(h) && (it > 0 ==> h.length > 0)
loop 0 invariant flag == HSetInNone ==> cnt == it && (forall f string {flds(h)[f]} :: flds(h)[f] == (D[f] || lastKey(keysOf(kvs), it, f) >= 0))
loop 0 invariant flag == HSetInNone ==> (forall f string {fval(h)[f]} :: flds(h)[f] ==> fval(h)[f] == (if lastKey(keysOf(kvs), it, f) >= 0 then kvs[lastKey(keysOf(kvs), it, f)].Value else V[f]))
loop 0 invariant flag == HSetInNx && it == 0 ==> cnt == 0 && flds(h) == D && fval(h) == V
loop 0 invariant flag == HSetInNx && it == 1 ==> cnt == (if D[kvs[0].Key] then 0 else 1) && flds(h) == D[kvs[0].Key := true] && fval(h) == (if D[kvs[0].Key] then V else V[kvs[0].Key := kvs[0].Value])

def hashPairs(c *redis.Command) bool = argc(c) >= 3 && argc(c) % 2 == 1
// the last pair of the arguments for field f
def fpair(c *redis.Command, f string) int = lastPair(argArr(c), argOff(c) + 1, (argc(c) - 1) / 2, f)

command hset
props C06 C07
witness own = ownNow(arg(c, 0))
loop 0 invariant 1 <= i <= argc(c) && i % 2 == 1 && len(kvs) == (i - 1) / 2 && fresh(kvs)
loop 0 invariant forall j int {kvs[j]} :: 0 <= j < len(kvs) ==> fresh(kvs[j]) && kvs[j].Key == arg(c, 2 * j + 1) && kvs[j].Value == stored(arg(c, 2 * j + 2))
ensures [C20 C06] !hashPairs(c) ==> isErr(result1) && storeSame()
ensures [C14] hashPairs(c) && old(otherHash(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C06] hashPairs(c) && old(!otherHash(arg(c, 0))) ==> okInt(result0, result1, (argc(c) - 1) / 2)
ensures [C06] hashPairs(c) && old(!otherHash(arg(c, 0))) ==> isHash(arg(c, 0)) && (forall f string {flds(hashOf(arg(c, 0)))[f]} :: flds(hashOf(arg(c, 0)))[f] == (old(hdom(arg(c, 0)))[f] || fpair(c, f) >= 0))
ensures [C06 C07] hashPairs(c) && old(!otherHash(arg(c, 0))) ==> (forall f string {hval(arg(c, 0), f)} :: hasField(arg(c, 0), f) ==> hval(arg(c, 0), f) == (if fpair(c, f) >= 0 then stored(arg(c, 2 * fpair(c, f) + 2)) else old(hvals(arg(c, 0)))[f]))
ensures [C15] hashPairs(c) ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command hmset
props C06 C07
witness own = ownNow(arg(c, 0))
loop 0 invariant 1 <= i <= argc(c) && i % 2 == 1 && len(kvs) == (i - 1) / 2 && fresh(kvs)
loop 0 invariant forall j int {kvs[j]} :: 0 <= j < len(kvs) ==> fresh(kvs[j]) && kvs[j].Key == arg(c, 2 * j + 1) && kvs[j].Value == stored(arg(c, 2 * j + 2))
ensures [C20 C06] !hashPairs(c) ==> isErr(result1) && storeSame()
ensures [C14] hashPairs(c) && old(otherHash(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C06] hashPairs(c) && old(!otherHash(arg(c, 0))) ==> okSimple(result0, result1, "OK")
ensures [C06] hashPairs(c) && old(!otherHash(arg(c, 0))) ==> isHash(arg(c, 0)) && (forall f string {flds(hashOf(arg(c, 0)))[f]} :: flds(hashOf(arg(c, 0)))[f] == (old(hdom(arg(c, 0)))[f] || fpair(c, f) >= 0))
ensures [C06 C07] hashPairs(c) && old(!otherHash(arg(c, 0))) ==> (forall f string {hval(arg(c, 0), f)} :: hasField(arg(c, 0), f) ==> hval(arg(c, 0), f) == (if fpair(c, f) >= 0 then stored(arg(c, 2 * fpair(c, f) + 2)) else old(hvals(arg(c, 0)))[f]))
ensures [C15] hashPairs(c) ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// key k holds the hash with fields D and, on them, the values V
def hashIs(k string, D [string]bool, V [string]any) bool = isHash(k) && flds(hashOf(k)) == D && (forall f string {fval(hashOf(k))[f]} :: D[f] ==> fval(hashOf(k))[f] == V[f])
// key k now also holds field f with value v
def hashGot(k string, f string, v any) bool = hashIs(k, old(hdom(k))[f := true], old(hvals(k))[f := v])

command hsetnx
props C06 C07
witness own = ownNow(arg(c, 0))
ensures [C20 C06] argc(c) < 3 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 3 && old(otherHash(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C06] argc(c) >= 3 && old(hasField(arg(c, 0), arg(c, 1))) ==> okInt(result0, result1, 0) && storeSame()
ensures [C06 C07] argc(c) >= 3 && old(!otherHash(arg(c, 0)) && !hasField(arg(c, 0), arg(c, 1))) ==> okInt(result0, result1, 1) && hashGot(arg(c, 0), arg(c, 1), stored(arg(c, 2)))
ensures [C15] argc(c) >= 3 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// increments
def hnum(k string, f string) int = if hasField(k, f) then hval(k, f).(int64) else 0
def haddable(k string, f string, n int) bool = !otherHash(k) && (hasField(k, f) ==> hval(k, f) is int64) && fits(hnum(k, f) + n)

command hincrby
props C07 C06
witness own = ownNow(arg(c, 0))
ensures [C20 C07] argc(c) < 3 || !parse_ok(arg(c, 2)) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 3 && old(otherHash(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C07] argc(c) >= 3 && parse_ok(arg(c, 2)) && old(haddable(arg(c, 0), arg(c, 1), parse_val(arg(c, 2)))) ==> (let n = old(hnum(arg(c, 0), arg(c, 1))) + parse_val(arg(c, 2)) in okInt(result0, result1, n) && hashGot(arg(c, 0), arg(c, 1), iface64(n)))
ensures [C07] argc(c) >= 3 && parse_ok(arg(c, 2)) && old(!haddable(arg(c, 0), arg(c, 1), parse_val(arg(c, 2)))) ==> isErr(result1) && storeSame()
ensures [C15] argc(c) >= 3 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

def hfloatable(k string, f string) bool = !otherHash(k) && (hasField(k, f) ==> hval(k, f) is float64)
def hfsum(k string, f string, x string) float64 = if hasField(k, f) then fadd(hval(k, f).(float64), pfloat_val(x)) else pfloat_val(x)

command hincrbyfloat
props C07 C06
witness own = ownNow(arg(c, 0))
ensures [C20 C07] argc(c) < 3 || !pfloat_ok(arg(c, 2)) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 3 && old(otherHash(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C07] argc(c) >= 3 && pfloat_ok(arg(c, 2)) && old(hfloatable(arg(c, 0), arg(c, 1))) ==> (let n = old(hfsum(arg(c, 0), arg(c, 1), arg(c, 2))) in okBulk(result0, result1, fmtfloat(n)) && hashGot(arg(c, 0), arg(c, 1), iface(n)))
ensures [C07] argc(c) >= 3 && pfloat_ok(arg(c, 2)) && old(!hfloatable(arg(c, 0), arg(c, 1))) ==> isErr(result1) && storeSame()
ensures [C15] argc(c) >= 3 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)
