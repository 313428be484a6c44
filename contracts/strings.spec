// String commands.
module store datastruct

def put(k string, s string) bool = isString(k) && strOf(k) == s
def otherString(k string) bool = has(k) && info(k).Type != KeyTypeString
def otherThan(k string, t KeyType) bool = has(k) && info(k).Type != t

func datastruct.Set
modifies smap.Map.dom[KEYS()], smap.Map.val[KEYS()], own
update own = old(own)[ref(info(key)) := key]
ensures put(key, value) && fresh(info(key)) 
ensures DOM(KEYS()) == old(DOM(KEYS()))[key := true]
ensures VAL(KEYS()) == old(VAL(KEYS()))[key := entry(key)]

command set
props C04
ensures [C20 C04] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C04] argc(c) >= 2 ==> okSimple(result0, result1, "OK") && put(arg(c, 0), arg(c, 1))
ensures [C15 C04] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// the last of the first n pairs of a (from offset o) whose key is k; -1 if none
rec lastPair(a [int]string, o int, n int, k string) int = if n <= 0 then 0 - 1 else if a[o + 2 * (n - 1)] == k then n - 1 else lastPair(a, o, n - 1, k)

func datastruct.MSet
inline
loop 0 keeps
loop 0 invariant 0 <= i && i % 2 == 0 && i <= len(kvs) && kvs == old(kvs)
loop 0 invariant forall k string {has(k)} :: lastPair(arrayof(kvs), kvs.off, i / 2, k) < 0 ==> same(k)
loop 0 invariant forall k string {has(k)} :: lastPair(arrayof(kvs), kvs.off, i / 2, k) >= 0 ==> put(k, arrayof(kvs)[kvs.off + 2 * lastPair(arrayof(kvs), kvs.off, i / 2, k) + 1])

def pairOf(c *redis.Command, k string) int = lastPair(old(arrayof(c.Values)), old(c.Values.off), argc(c) / 2, k)
command mset
props C04
ensures [C20 C04] argc(c) < 2 || argc(c) % 2 != 0 ==> isErr(result1) && storeSame()
ensures [C04] argc(c) >= 2 && argc(c) % 2 == 0 ==> okSimple(result0, result1, "OK")
ensures [C04] argc(c) >= 2 && argc(c) % 2 == 0 ==> (forall k string {has(k)} :: pairOf(c, k) >= 0 ==> put(k, arg(c, 2 * pairOf(c, k) + 1)))
ensures [C15 C04] argc(c) >= 2 && argc(c) % 2 == 0 ==> (forall k string {has(k)} :: pairOf(c, k) < 0 ==> same(k))
ensures [C20 C19] wfReply(result0, result1)

command get
props C04
ensures [C20 C04] argc(c) < 1 ==> isErr(result1)
ensures [C04] argc(c) >= 1 && isString(arg(c, 0)) ==> okBulk(result0, result1, strOf(arg(c, 0)))
ensures [C04 C16] argc(c) >= 1 && !has(arg(c, 0)) ==> okNil(result0, result1)
ensures [C14] argc(c) >= 1 && otherString(arg(c, 0)) ==> isErr(result1)
ensures [C15 C04 C14] storeSame()
ensures [C20 C19] wfReply(result0, result1)

func datastruct.MGet
inline
loop 0 invariant 0 <= it <= len(keys) && len(result) == it && (it == 0 || fresh(result))
loop 0 invariant forall j int {result[j]} :: 0 <= j < it ==> result[j] == (if isString(keys[j]) then iface(strOf(keys[j])) else nil)

command mget
props C04
ensures [C20 C04] argc(c) < 1 ==> isErr(result1)
ensures [C04] argc(c) >= 1 ==> okArr(result0, result1, argc(c))
ensures [C04 C14] argc(c) >= 1 ==> (forall i int {result0.Items[i]} :: 0 <= i < argc(c) ==> (if isString(arg(c, i)) then itemStr(result0, i, strOf(arg(c, i))) else itemNil(result0, i)))
ensures [C15 C04 C14] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command append
props C04
ensures [C20 C04] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C04] argc(c) >= 2 && old(!has(arg(c, 0))) ==> okInt(result0, result1, len(arg(c, 1))) && put(arg(c, 0), arg(c, 1))
ensures [C04] argc(c) >= 2 && old(isString(arg(c, 0))) ==> put(arg(c, 0), old(strOf(arg(c, 0))) + arg(c, 1)) && okInt(result0, result1, len(old(strOf(arg(c, 0)))) + len(arg(c, 1)))
ensures [C14] argc(c) >= 2 && old(otherString(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C15 C04] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// counters
def fits(n int) bool = 0 - 9223372036854775808 <= n <= 9223372036854775807
def ctr(k string) int = if isString(k) then parse_val(strOf(k)) else 0
def addable(k string, n int) bool = (!has(k) || isString(k) && parse_ok(strOf(k))) && fits(ctr(k) + n)
def added(k string, n int, r *protocol.Response, e error) bool = old(addable(k, n)) ==> okInt(r, e, old(ctr(k)) + n) && put(k, fmtint(old(ctr(k)) + n))
def refused(k string, n int, e error) bool = old(!addable(k, n)) ==> isErr(e) && storeSame()

command incr
props C05
ensures [C20 C05] argc(c) < 1 ==> isErr(result1) && storeSame()
ensures [C05] argc(c) >= 1 ==> added(arg(c, 0), 1, result0, result1)
ensures [C05 C14] argc(c) >= 1 ==> refused(arg(c, 0), 1, result1)
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command decr
props C05
ensures [C20 C05] argc(c) < 1 ==> isErr(result1) && storeSame()
ensures [C05] argc(c) >= 1 ==> added(arg(c, 0), 0 - 1, result0, result1)
ensures [C05 C14] argc(c) >= 1 ==> refused(arg(c, 0), 0 - 1, result1)
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command incrby
props C05
ensures [C20 C05] argc(c) < 2 || !parse_ok(arg(c, 1)) ==> isErr(result1) && storeSame()
ensures [C05] argc(c) >= 2 && parse_ok(arg(c, 1)) ==> added(arg(c, 0), parse_val(arg(c, 1)), result0, result1)
ensures [C05 C14] argc(c) >= 2 && parse_ok(arg(c, 1)) ==> refused(arg(c, 0), parse_val(arg(c, 1)), result1)
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// the smallest 64-bit integer is refused as a decrement
command decrby
props C05
ensures [C20 C05] argc(c) < 2 || !parse_ok(arg(c, 1)) || parse_val(arg(c, 1)) == 0 - 9223372036854775808 ==> isErr(result1) && storeSame()
ensures [C05] argc(c) >= 2 && parse_ok(arg(c, 1)) && parse_val(arg(c, 1)) > 0 - 9223372036854775808 ==> added(arg(c, 0), 0 - parse_val(arg(c, 1)), result0, result1)
ensures [C05 C14] argc(c) >= 2 && parse_ok(arg(c, 1)) && parse_val(arg(c, 1)) > 0 - 9223372036854775808 ==> refused(arg(c, 0), 0 - parse_val(arg(c, 1)), result1)
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)
