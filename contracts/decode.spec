// Requests as bytes: what a reader delivers, and the grammar of requests.
module decode protocol

// data: the bytes the reader will ever deliver, size: how many, pos: how many were read
ghost protocol.Reader.data [int]int
ghost protocol.Reader.size int
ghost protocol.Reader.pos int
// how many items of an array were read
ghostvar itemsRead int

// nl(d, p, size): the next line feed at or after p, or size; shift(d, p): the bytes from p on
def lineLen(d [int]int, size int, p int) int = nl(d, p, size) - p + 1
def isLine(d [int]int, size int, p int) bool = 0 <= p && p < size && nl(d, p, size) < size && lineLen(d, size, p) >= 3 && d[p + lineLen(d, size, p) - 2] == 13
// the decimal number written in bytes [a, b), -1 when it is none or above max
rec dv(d [int]int, a int, b int, max int) int = if b <= a then 0 else let v = dv(d, a, b - 1, max) in let c = d[b - 1] in if v < 0 || c < 48 || c > 57 || v * 10 + (c - 48) > max then 0 - 1 else v * 10 + (c - 48)
lemma dv_sticks b a : forall d [int]int, a int, m int, b int, max int {dv(d, a, m, max), dv(d, a, b, max)} :: a <= m && m <= b && dv(d, a, m, max) < 0 ==> dv(d, a, b, max) < 0
def hmax(c int) int = if c == 42 then maxArrayLength else maxBulkLength
// the length announced by the line at p
rec hdr(d [int]int, size int, p int) int = if lineLen(d, size, p) < 4 then 0 - 1 else dv(shift(d, p), 1, lineLen(d, size, p) - 2, hmax(d[p]))
def isPing(d [int]int, size int, p int) bool = lineLen(d, size, p) == 6 && d[p] == 80 && d[p + 1] == 73 && d[p + 2] == 78 && d[p + 3] == 71 && d[p + 4] == 13 && d[p + 5] == 10
// where the item at p ends, -1 when there is no well-formed item (an array is its header line; its elements follow as items)
rec itemEnd(d [int]int, size int, p int) int = if !isLine(d, size, p) then 0 - 1 else let n = lineLen(d, size, p) in let c = d[p] in let m = hdr(d, size, p) in if c == 36 then (if m < 0 || p + n + m + 2 > size || d[p + n + m] != 13 || d[p + n + m + 1] != 10 then 0 - 1 else p + n + m + 2) else if c == 42 then (if m < 0 then 0 - 1 else p + n) else if c == 43 || c == 45 || c == 58 || isPing(d, size, p) then p + n else 0 - 1
def isArray(d [int]int, p int) bool = d[p] == 42
rec wire(d [int]int, size int, p int) string = let n = lineLen(d, size, p) in if d[p] == 36 then bstr(d, p + n, hdr(d, size, p)) else if d[p] == 43 || d[p] == 45 || d[p] == 58 then bstr(d, p + 1, n - 3) else "PING"
// the items from q on: where item k starts (-1 after a bad one), how many are needed knowing the first k of an array of n, how many of the first k carry a text
rec at_(d [int]int, size int, q int, k int) int = if k <= 0 then q else if at_(d, size, q, k - 1) < 0 then 0 - 1 else itemEnd(d, size, at_(d, size, q, k - 1))
rec need(d [int]int, size int, q int, n int, k int) int = if k <= 0 then n else let p = at_(d, size, q, k - 1) in need(d, size, q, n, k - 1) + (if isArray(d, p) then hdr(d, size, p) else 0)
rec texts(d [int]int, size int, q int, k int) int = if k <= 0 then 0 else texts(d, size, q, k - 1) + (if isArray(d, at_(d, size, q, k - 1)) then 0 else 1)
// m items were read, each of them needed
rec reads(d [int]int, size int, q int, n int, m int) bool = forall j int {at_(d, size, q, j)} :: 0 <= j < m ==> j < need(d, size, q, n, j)

func protocol.readBulkOrArrayLength
requires len(line) >= 1
ensures [C17 C18 C20] result1 == nil ==> 0 <= result0 && len(line) >= 4 && result0 == dv(shift(arrayof(line), line.off), 1, len(line) - 2, hmax(line[0]))
ensures [C17 C18 C20] result1 != nil ==> result0 == 0 && (len(line) < 4 || dv(shift(arrayof(line), line.off), 1, len(line) - 2, hmax(line[0])) < 0)
loop 0 invariant 1 <= i && ln == dv(shift(arrayof(line), line.off), 1, i, hmax(line[0])) && 0 <= ln && ln <= hmax(line[0])
hint result1 != nil && len(line) >= 4 ==> dv(shift(arrayof(line), line.off), 1, i + 1, hmax(line[0])) < 0

// what a reader is like: sizes stay far below 2^63
def okReader(r Reader) bool = r != nil && 0 <= r.pos && r.pos <= r.size && r.size <= 1099511627776

func protocol.Receive.readArray
requires 0 < ref(r) && allocated(r) && okReader(rr) && 0 <= ln <= maxArrayLength
requires ref(r.Elements) == 0 && len(r.Elements) == 0 && r.Elements.cap == 0
modifies protocol.Receive.Elements[r], protocol.Receive.OrgStr[r], itemsRead, protocol.Reader.pos[ref(rr)]
witness itemsRead = k
ensures [C18 C20] okReader(rr) && rr.size == old(rr.size) && rr.data == old(rr.data)
ensures [C17 C18] 0 <= itemsRead && at_(rr.data, rr.size, old(rr.pos), itemsRead) >= 0
ensures [C17 C18] reads(rr.data, rr.size, old(rr.pos), ln, itemsRead)
ensures [C17 C18] result == nil ==> itemsRead == need(rr.data, rr.size, old(rr.pos), ln, itemsRead) && rr.pos == at_(rr.data, rr.size, old(rr.pos), itemsRead)
ensures [C17 C18] result == nil ==> len(r.Elements) == texts(rr.data, rr.size, old(rr.pos), itemsRead)
ensures [C17 C18] result == nil ==> (forall j int {at_(rr.data, rr.size, old(rr.pos), j)} :: 0 <= j < itemsRead && !isArray(rr.data, at_(rr.data, rr.size, old(rr.pos), j)) ==> r.Elements[texts(rr.data, rr.size, old(rr.pos), j)] == wire(rr.data, rr.size, at_(rr.data, rr.size, old(rr.pos), j)))
ensures [C17 C18] result != nil ==> itemsRead < need(rr.data, rr.size, old(rr.pos), ln, itemsRead) && itemEnd(rr.data, rr.size, at_(rr.data, rr.size, old(rr.pos), itemsRead)) < 0
loop 0 ghost k int = 0
loop 0 step k = k + 1
loop 0 invariant i == k && (ref(r.Elements) == 0 && len(r.Elements) == 0 && r.Elements.cap == 0 || fresh(r.Elements))
loop 0 invariant 0 <= k && okReader(rr) && rr.size == old(rr.size) && rr.data == old(rr.data)
loop 0 invariant rr.pos == at_(rr.data, rr.size, old(rr.pos), k) && rr.pos >= old(rr.pos) + 3 * k
loop 0 invariant ln == need(rr.data, rr.size, old(rr.pos), old(ln), k) && k <= ln && ln <= old(ln) + maxArrayLength * k
loop 0 invariant 0 <= texts(rr.data, rr.size, old(rr.pos), k) && texts(rr.data, rr.size, old(rr.pos), k) <= k && len(r.Elements) == texts(rr.data, rr.size, old(rr.pos), k)
loop 0 invariant reads(rr.data, rr.size, old(rr.pos), old(ln), k)
loop 0 invariant forall j int {at_(rr.data, rr.size, old(rr.pos), j)} :: 0 <= j < k && !isArray(rr.data, at_(rr.data, rr.size, old(rr.pos), j)) ==> texts(rr.data, rr.size, old(rr.pos), j) < texts(rr.data, rr.size, old(rr.pos), k) && 0 <= texts(rr.data, rr.size, old(rr.pos), j) && r.Elements[texts(rr.data, rr.size, old(rr.pos), j)] == wire(rr.data, rr.size, at_(rr.data, rr.size, old(rr.pos), j))
loop 0 decreases rr.size - rr.pos
makes [C18] 1048576 + 2 * (rr.pos - old(rr.pos))

// fed(d): bytes given to the decoder (a mark to instantiate lemmas by)
fun fed(d [int]int) bool
axiom forall d [int]int {fed(d)} :: fed(d)

func protocol.DecodeFromReader
props C17 C18 C20
requires okReader(r)
modifies protocol.Reader.pos[ref(r)], itemsRead
ensures [C18 C20] okReader(r) && fed(r.data) && r.size == old(r.size) && r.data == old(r.data) && (err == nil) == (0 < ref(rec))
ensures [C17 C18] err == nil ==> 0 < ref(rec) && allocated(rec) && itemEnd(r.data, r.size, old(r.pos)) >= 0
ensures [C17 C18] err == nil && !isArray(r.data, old(r.pos)) ==> r.pos == itemEnd(r.data, r.size, old(r.pos)) && len(rec.Elements) == 1 && rec.Elements[0] == wire(r.data, r.size, old(r.pos))
ensures [C17 C18] isArray(r.data, old(r.pos)) && itemEnd(r.data, r.size, old(r.pos)) >= 0 ==> (let q = itemEnd(r.data, r.size, old(r.pos)) in let n = hdr(r.data, r.size, old(r.pos)) in 0 <= itemsRead && at_(r.data, r.size, q, itemsRead) >= 0 && reads(r.data, r.size, q, n, itemsRead))
ensures [C17 C18] isArray(r.data, old(r.pos)) && err == nil ==> (let q = itemEnd(r.data, r.size, old(r.pos)) in let n = hdr(r.data, r.size, old(r.pos)) in itemsRead == need(r.data, r.size, q, n, itemsRead) && r.pos == at_(r.data, r.size, q, itemsRead) && len(rec.Elements) == texts(r.data, r.size, q, itemsRead))
ensures [C17 C18] isArray(r.data, old(r.pos)) && err == nil ==> (let q = itemEnd(r.data, r.size, old(r.pos)) in forall j int {at_(r.data, r.size, q, j)} :: 0 <= j < itemsRead && !isArray(r.data, at_(r.data, r.size, q, j)) ==> rec.Elements[texts(r.data, r.size, q, j)] == wire(r.data, r.size, at_(r.data, r.size, q, j)))
ensures [C17] forall A [int]string, n int {encodes(r.data, r.size, old(r.pos), A, n)} :: encodes(r.data, r.size, old(r.pos), A, n) ==> err == nil && len(rec.Elements) == n && r.pos == old(r.pos) + 3 + len(fmtint(n)) + apos(A, n)
ensures [C17] forall A [int]string, n int, k int {encodes(r.data, r.size, old(r.pos), A, n), rec.Elements[k]} {encodes(r.data, r.size, old(r.pos), A, n), A[k]} :: encodes(r.data, r.size, old(r.pos), A, n) && 0 <= k < n ==> rec.Elements[k] == A[k]
ensures [C17 C18] err != nil ==> itemEnd(r.data, r.size, old(r.pos)) < 0 || isArray(r.data, old(r.pos)) && (let q = itemEnd(r.data, r.size, old(r.pos)) in let n = hdr(r.data, r.size, old(r.pos)) in itemsRead < need(r.data, r.size, q, n, itemsRead) && itemEnd(r.data, r.size, at_(r.data, r.size, q, itemsRead)) < 0)
makes [C18] 1048576 + 2 * (r.pos - old(r.pos))

// --- a request as clients send it: an array of n bulk strings A[0..n) written at p ---
def bytesAt(d [int]int, a int, s string) bool = forall j int {d[j]} :: a <= j < a + len(s) ==> d[j] == sbytes(s)[j - a]
// the decimal text of a number is its digits (what strconv guarantees)
axiom forall d [int]int, a int, b int, max int, n int {dv(d, a, b, max), fmtint(n)} :: 0 <= n && n <= max && b == a + len(fmtint(n)) && bytesAt(d, a, fmtint(n)) ==> dv(d, a, b, max) == n
axiom forall n int, i int {sbytes(fmtint(n))[i]} :: 0 <= n && 0 <= i < len(fmtint(n)) ==> 48 <= sbytes(fmtint(n))[i] <= 57
axiom forall n int {fmtint(n)} :: 1 <= len(fmtint(n)) && len(fmtint(n)) <= 20
def headAt(d [int]int, p int, c int, n int) bool = let k = len(fmtint(n)) in d[p] == c && bytesAt(d, p + 1, fmtint(n)) && d[p + 1 + k] == 13 && d[p + 2 + k] == 10
def bulkLen(s string) int = len(fmtint(len(s))) + 5 + len(s)
rec bulkAt(d [int]int, size int, p int, s string) bool = 0 <= p && len(s) <= maxBulkLength && p + bulkLen(s) <= size && headAt(d, p, 36, len(s)) && (let q = p + 3 + len(fmtint(len(s))) in bytesAt(d, q, s) && d[q + len(s)] == 13 && d[q + len(s) + 1] == 10)
lemma bulk_end : forall d [int]int, size int, p int, s string {bulkAt(d, size, p, s)} :: bulkAt(d, size, p, s) ==> itemEnd(d, size, p) == p + bulkLen(s) && d[p] == 36
lemma bulk_wire : forall d [int]int, size int, p int, s string {bulkAt(d, size, p, s), wire(d, size, p)} :: bulkAt(d, size, p, s) ==> wire(d, size, p) == s

// n bulk strings A[0], A[1], ... one after the other: the length of the first k, a whole request at p
rec apos(A [int]string, k int) int = if k <= 0 then 0 else apos(A, k - 1) + bulkLen(A[k - 1])
rec sends(d [int]int, size int, q int, A [int]string, n int) bool = forall k int {A[k]} {apos(A, k)} :: 0 <= k < n ==> bulkAt(d, size, q + apos(A, k), A[k])
lemma sent_at k 0 : forall d [int]int, size int, q int, A [int]string, n int, k int {sends(d, size, q, A, n), at_(d, size, q, k)} :: 0 <= q && sends(d, size, q, A, n) && 0 <= k <= n ==> at_(d, size, q, k) == q + apos(A, k) && apos(A, k) >= 0
lemma sent_texts k 0 : forall d [int]int, size int, q int, A [int]string, n int, k int {sends(d, size, q, A, n), texts(d, size, q, k)} :: 0 <= q && sends(d, size, q, A, n) && 0 <= k <= n ==> texts(d, size, q, k) == k
lemma sent_need k 0 : forall d [int]int, size int, q int, A [int]string, n int, k int {sends(d, size, q, A, n), need(d, size, q, n, k)} :: 0 <= q && sends(d, size, q, A, n) && 0 <= k <= n ==> need(d, size, q, n, k) == n
lemma sent_wire : forall d [int]int, size int, q int, A [int]string, n int, k int {sends(d, size, q, A, n), A[k]} :: 0 <= q && sends(d, size, q, A, n) && 0 <= k < n ==> d[at_(d, size, q, k)] == 36 && wire(d, size, at_(d, size, q, k)) == A[k] && texts(d, size, q, k) == k
rec encodes(d [int]int, size int, p int, A [int]string, n int) bool = 0 <= p && 0 <= n && n <= maxArrayLength && p + 3 + len(fmtint(n)) <= size && headAt(d, p, 42, n) && sends(d, size, p + 3 + len(fmtint(n)), A, n)
lemma sent_head : forall d [int]int, size int, p int, A [int]string, n int {encodes(d, size, p, A, n)} :: encodes(d, size, p, A, n) ==> isArray(d, p) && itemEnd(d, size, p) == p + 3 + len(fmtint(n)) && hdr(d, size, p) == n
// a reader of a request as sent stops after exactly its n bulk strings
lemma sent_stops : forall d [int]int, size int, q int, A [int]string, n int, m int {sends(d, size, q, A, n), reads(d, size, q, n, m)} :: 0 <= q && sends(d, size, q, A, n) && 0 <= n && 0 <= m && reads(d, size, q, n, m) && need(d, size, q, n, n) == n && at_(d, size, q, n) >= 0 ==> m <= n

// what Response.Encode makes of a list of texts decodes to that list: the bytes are the request with those elements
def bulks(X [int]string, A [int]string, n int) bool = forall k int {X[k]} {A[k]} :: 0 <= k < n ==> X[k] == bulkText(A[k]) && len(A[k]) <= maxBulkLength
rec written(d [int]int, size int, p int, s string) bool = 0 <= p && p + len(s) <= size && bytesAt(d, p, s)
lemma written_left : forall d [int]int, size int, p int, a string, b string {written(d, size, p, a + b)} :: written(d, size, p, a + b) ==> written(d, size, p, a) && written(d, size, p + len(a), b)
lemma written_bulk : forall d [int]int, size int, p int, s string {written(d, size, p, bulkText(s)), bulkAt(d, size, p, s)} :: written(d, size, p, bulkText(s)) && len(s) <= maxBulkLength ==> bulkAt(d, size, p, s)
lemma texts_len n 0 : forall X [int]string, A [int]string, n int {catN(X, n), apos(A, n)} :: bulks(X, A, n) && 0 <= n ==> len(catN(X, n)) == apos(A, n)
lemma written_sends n 0 : forall d [int]int, size int, q int, X [int]string, A [int]string, n int {written(d, size, q, catN(X, n)), sends(d, size, q, A, n)} :: 0 <= n && bulks(X, A, n) && written(d, size, q, catN(X, n)) ==> sends(d, size, q, A, n)
// the round trip of replies
lemma encoded_list : [C17] forall d [int]int, size int, p int, X [int]string, A [int]string, n int {written(d, size, p, "*" + fmtint(n) + "\r\n" + catN(X, n)), encodes(d, size, p, A, n)} :: 0 <= n && n <= maxArrayLength && bulks(X, A, n) && written(d, size, p, "*" + fmtint(n) + "\r\n" + catN(X, n)) ==> encodes(d, size, p, A, n)
