// List commands.
module store datastruct

def otherList(k string) bool = has(k) && info(k).Type != KeyTypeList
def llen(k string) int = if isList(k) then listOf(k).length else 0
def lat(k string, i int) string = at(listOf(k), i)
// k holds a list of n elements (n > 0), or nothing when n is 0
def holds(k string, n int) bool = if n == 0 then !has(k) else isList(k) && listOf(k).length == n

func datastruct.newListByLPush
inline
loop 0 invariant 0 <= it <= len(values) && list.length == it && fresh(list)
loop 0 invariant forall p int {list.seq[p]} :: list.lo <= p < hi(list) ==> list.seq[p] == values[list.lo + it - 1 - p]

func datastruct.newListByRPush
inline
loop 0 invariant 0 <= it <= len(values) && list.length == it && fresh(list)
loop 0 invariant forall i int {list.seq[list.lo + i]} :: 0 <= i < it ==> list.seq[list.lo + i] == values[i]

func datastruct.LPush
inline
loop 0 invariant 0 <= it <= len(values) && list.length == old(list.length) + it && list.lo == old(list.lo) - it
loop 0 invariant forall p int {list.seq[p]} :: list.lo <= p < hi(list) ==> list.seq[p] == (if p >= old(list.lo) then old(list.seq)[p] else values[old(list.lo) - 1 - p])

func datastruct.RPush
inline
loop 0 invariant 0 <= it <= len(values) && list.length == old(list.length) + it
loop 0 invariant forall p int {list.seq[p]} :: list.lo <= p < hi(list) ==> list.seq[p] == (if p < old(hi(list)) then old(list.seq)[p] else values[p - old(hi(list))])

func datastruct.LPop
inline
loop 0 invariant 0 <= len(values) <= old(list.length) && (len(values) == 0 || fresh(values))
loop 0 invariant list.length == old(list.length) - len(values) && list.lo == old(list.lo) + len(values) && count == old(count) - len(values) && count >= 0
loop 0 invariant forall i int {values[i]} :: 0 <= i < len(values) ==> values[i] == old(at(list, i))
loop 0 decreases count

func datastruct.RPop
inline
loop 0 invariant 0 <= len(values) <= old(list.length) && (len(values) == 0 || fresh(values))
loop 0 invariant list.length == old(list.length) - len(values) && count == old(count) - len(values) && count >= 0
loop 0 invariant forall i int {values[i]} :: 0 <= i < len(values) ==> values[i] == old(at(list, list.length - 1 - i))
loop 0 decreases count

command lpush
props C01
witness own = ownNow(arg(c, 0))
ensures [C20 C01] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 2 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C01] argc(c) >= 2 && old(!otherList(arg(c, 0))) ==> okInt(result0, result1, old(llen(arg(c, 0))) + argc(c) - 1) && holds(arg(c, 0), old(llen(arg(c, 0))) + argc(c) - 1)
ensures [C01] argc(c) >= 2 && old(!otherList(arg(c, 0))) ==> (forall i int {lat(arg(c, 0), i)} :: 0 <= i < argc(c) - 1 ==> lat(arg(c, 0), i) == arg(c, argc(c) - 1 - i))
ensures [C01] argc(c) >= 2 && old(!otherList(arg(c, 0))) ==> (forall i int {old(lat(arg(c, 0), i))} :: 0 <= i < old(llen(arg(c, 0))) ==> lat(arg(c, 0), i + argc(c) - 1) == old(lat(arg(c, 0), i)))
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command rpush
props C01
witness own = ownNow(arg(c, 0))
ensures [C20 C01] argc(c) < 2 ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 2 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C01] argc(c) >= 2 && old(!otherList(arg(c, 0))) ==> okInt(result0, result1, old(llen(arg(c, 0))) + argc(c) - 1) && holds(arg(c, 0), old(llen(arg(c, 0))) + argc(c) - 1)
ensures [C01] argc(c) >= 2 && old(!otherList(arg(c, 0))) ==> (forall i int {lat(arg(c, 0), i)} :: 1 <= i < argc(c) ==> lat(arg(c, 0), old(llen(arg(c, 0))) + i - 1) == arg(c, i))
ensures [C01] argc(c) >= 2 && old(!otherList(arg(c, 0))) ==> (forall i int {old(lat(arg(c, 0), i))} :: 0 <= i < old(llen(arg(c, 0))) ==> lat(arg(c, 0), i) == old(lat(arg(c, 0), i)))
ensures [C15] argc(c) >= 2 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// the number of elements a pop asks for
def popBad(c *redis.Command) bool = argc(c) >= 2 && (!parse_ok(arg(c, 1)) || parse_val(arg(c, 1)) <= 0)
def popAsk(c *redis.Command) int = if argc(c) >= 2 then parse_val(arg(c, 1)) else 1
def popN(c *redis.Command) int = min2(popAsk(c), old(llen(arg(c, 0))))

command lpop
props C01
ensures [C20 C01] argc(c) < 1 || popBad(c) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 1 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C01 C16] argc(c) >= 1 && !popBad(c) && old(!has(arg(c, 0))) ==> okNil(result0, result1) && storeSame()
ensures [C01] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> bulkArr(result0, result1, popN(c))
ensures [C01] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> (forall i int {item(result0, i)} :: 0 <= i < popN(c) ==> item(result0, i) == old(lat(arg(c, 0), i)))
ensures [C01 C16] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> holds(arg(c, 0), old(llen(arg(c, 0))) - popN(c))
ensures [C01] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> (forall i int {old(lat(arg(c, 0), i))} :: popN(c) <= i < old(llen(arg(c, 0))) ==> lat(arg(c, 0), i - popN(c)) == old(lat(arg(c, 0), i)))
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command rpop
props C01
ensures [C20 C01] argc(c) < 1 || popBad(c) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 1 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C01 C16] argc(c) >= 1 && !popBad(c) && old(!has(arg(c, 0))) ==> okNil(result0, result1) && storeSame()
ensures [C01] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> bulkArr(result0, result1, popN(c))
ensures [C01] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> (forall i int {item(result0, i)} :: 0 <= i < popN(c) ==> item(result0, i) == old(lat(arg(c, 0), llen(arg(c, 0)) - 1 - i)))
ensures [C01 C16] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> holds(arg(c, 0), old(llen(arg(c, 0))) - popN(c))
ensures [C01] argc(c) >= 1 && !popBad(c) && old(isList(arg(c, 0))) ==> (forall i int {old(lat(arg(c, 0), i))} :: 0 <= i < old(llen(arg(c, 0))) - popN(c) ==> lat(arg(c, 0), i) == old(lat(arg(c, 0), i)))
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command llen
props C01
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C14] argc(c) >= 1 && otherList(arg(c, 0)) ==> isErr(result1)
ensures [C01] argc(c) >= 1 && !otherList(arg(c, 0)) ==> okInt(result0, result1, llen(arg(c, 0)))
ensures [C15 C14 C01] storeSame()
ensures [C20 C19] wfReply(result0, result1)

// two integer arguments
def two(c *redis.Command) bool = argc(c) >= 3 && parse_ok(arg(c, 1)) && parse_ok(arg(c, 2))
def rn(c *redis.Command) int = if has(arg(c, 0)) then rcount(llen(arg(c, 0)), parse_val(arg(c, 1)), parse_val(arg(c, 2))) else 0

command lrange
props C02
ensures [C20 C02] !two(c) ==> isErr(result1)
ensures [C14] two(c) && otherList(arg(c, 0)) ==> isErr(result1)
ensures [C02] two(c) && !otherList(arg(c, 0)) ==> bulkArr(result0, result1, rn(c))
ensures [C02] two(c) && !otherList(arg(c, 0)) ==> (forall i int {item(result0, i)} :: 0 <= i < rn(c) ==> item(result0, i) == lat(arg(c, 0), rfrom(llen(arg(c, 0)), parse_val(arg(c, 1))) + i))
ensures [C15 C14 C02] storeSame()
ensures [C20 C19] wfReply(result0, result1)

def idx(k string, i int) int = if i < 0 then i + llen(k) else i
def inList(k string, i int) bool = isList(k) && 0 <= idx(k, i) < llen(k)

command lindex
props C02
ensures [C20 C02] argc(c) < 2 || !parse_ok(arg(c, 1)) ==> isErr(result1)
ensures [C14] argc(c) >= 2 && otherList(arg(c, 0)) ==> isErr(result1)
ensures [C02] argc(c) >= 2 && parse_ok(arg(c, 1)) && inList(arg(c, 0), parse_val(arg(c, 1))) ==> okBulk(result0, result1, lat(arg(c, 0), idx(arg(c, 0), parse_val(arg(c, 1)))))
ensures [C02] argc(c) >= 2 && parse_ok(arg(c, 1)) && !otherList(arg(c, 0)) && !inList(arg(c, 0), parse_val(arg(c, 1))) ==> okNil(result0, result1)
ensures [C15 C14 C02] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command lset
props C02
ensures [C20 C02] argc(c) < 3 || !parse_ok(arg(c, 1)) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 3 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C02] argc(c) >= 3 && parse_ok(arg(c, 1)) && old(!inList(arg(c, 0), parse_val(arg(c, 1)))) ==> isErr(result1) && storeSame()
ensures [C02] argc(c) >= 3 && parse_ok(arg(c, 1)) && old(inList(arg(c, 0), parse_val(arg(c, 1)))) ==> okSimple(result0, result1, "OK") && holds(arg(c, 0), old(llen(arg(c, 0))))
ensures [C02] argc(c) >= 3 && parse_ok(arg(c, 1)) && old(inList(arg(c, 0), parse_val(arg(c, 1)))) ==> (forall i int {lat(arg(c, 0), i)} :: 0 <= i < llen(arg(c, 0)) ==> lat(arg(c, 0), i) == (if i == idx(arg(c, 0), parse_val(arg(c, 1))) then arg(c, 2) else old(lat(arg(c, 0), i))))
ensures [C15] argc(c) >= 3 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

def remOk(c *redis.Command) bool = argc(c) >= 3 && parse_ok(arg(c, 1)) && old(isList(arg(c, 0)))
def remN(c *redis.Command) int = let n = parse_val(arg(c, 1)) in let m = old(occIn(listOf(arg(c, 0)), arg(c, 2))) in if n == 0 then m else min2(m, if n < 0 then 0 - n else n)
def remHead(c *redis.Command) bool = remOk(c) && parse_val(arg(c, 1)) >= 0
def remTail(c *redis.Command) bool = remOk(c) && parse_val(arg(c, 1)) < 0
def oseq(c *redis.Command) [int]string = old(listOf(arg(c, 0)).seq)
def olo(c *redis.Command) int = old(listOf(arg(c, 0)).lo)
def remLeft(c *redis.Command) int = old(occIn(listOf(arg(c, 0)), arg(c, 2))) - remN(c)

command lrem
props C03
ensures [C20 C03] argc(c) < 3 || !parse_ok(arg(c, 1)) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 3 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C03 C16] argc(c) >= 3 && parse_ok(arg(c, 1)) && old(!has(arg(c, 0))) ==> okInt(result0, result1, 0) && storeSame()
ensures [C03 C16] remOk(c) ==> okInt(result0, result1, remN(c)) && holds(arg(c, 0), old(llen(arg(c, 0))) - remN(c))
ensures [C03] remHead(c) ==> (forall i int {oseq(c)[olo(c) + i]} :: 0 <= i < old(llen(arg(c, 0))) && !goneHead(oseq(c), olo(c), i, arg(c, 2), remN(c)) ==> lat(arg(c, 0), toHead(oseq(c), olo(c), i, arg(c, 2), remN(c))) == oseq(c)[olo(c) + i])
ensures [C03] remTail(c) ==> (forall i int {oseq(c)[olo(c) + i]} :: 0 <= i < old(llen(arg(c, 0))) && !goneTail(oseq(c), olo(c), i, arg(c, 2), remLeft(c)) ==> lat(arg(c, 0), toTail(oseq(c), olo(c), i, arg(c, 2), remLeft(c))) == oseq(c)[olo(c) + i])
ensures [C15] argc(c) >= 3 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

// AFTER and BEFORE in any case
def insAfter(c *redis.Command) bool = tolower(arg(c, 1)) == "after"
def insOk(c *redis.Command) bool = argc(c) >= 4 && (insAfter(c) || tolower(arg(c, 1)) == "before")
def insHit(c *redis.Command) bool = old(isList(arg(c, 0)) && firstIn(listOf(arg(c, 0)), arg(c, 2)) >= 0)
// where the new value goes
def insAt(c *redis.Command) int = old(firstIn(listOf(arg(c, 0)), arg(c, 2))) + (if insAfter(c) then 1 else 0)

command linsert
props C03
ensures [C20 C03] !insOk(c) ==> isErr(result1) && storeSame()
ensures [C14] argc(c) >= 4 && old(otherList(arg(c, 0))) ==> isErr(result1) && storeSame()
ensures [C03] insOk(c) && !insHit(c) ==> isErr(result1) && storeSame()
ensures [C03] insOk(c) && insHit(c) ==> okInt(result0, result1, old(llen(arg(c, 0))) + 1) && holds(arg(c, 0), old(llen(arg(c, 0))) + 1)
ensures [C03] insOk(c) && insHit(c) ==> (forall i int {lat(arg(c, 0), i)} :: 0 <= i < llen(arg(c, 0)) ==> lat(arg(c, 0), i) == (if i < insAt(c) then old(lat(arg(c, 0), i)) else if i == insAt(c) then arg(c, 3) else old(lat(arg(c, 0), i - 1))))
ensures [C15] argc(c) >= 4 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)
