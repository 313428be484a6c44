// A frame of bytes from a connection: its request is carried out once and its reply given to that connection.
module server v2

// replies given to a connection with AsyncWrite: how many, to which connection, the last one's text
threadvar wrote int
threadvar wroteTo int
threadvar wroteText string
// how often a task was left to run later; how often something was kept with the connection for the next frame
threadvar late int
threadvar keptFor int

assumption the goroutine pool accepts every task (it refuses one only while 262144 others run) and runs it once
assumption gnet delivers the bytes of a connection in order, sends what AsyncWrite or React gives it, and uses a frame's memory again only after React returned

def sameBytes(d [int]int, e [int]int, n int) bool = forall i int {e[i]} :: 0 <= i < n ==> d[i] == e[i]
lemma same_bulk : forall d [int]int, e [int]int, n int, p int, s string {bulkAt(d, n, p, s), bulkAt(e, n, p, s)} :: sameBytes(d, e, n) && bulkAt(d, n, p, s) ==> bulkAt(e, n, p, s)
lemma same_sends : forall d [int]int, e [int]int, n int, q int, A [int]string, m int {sends(d, n, q, A, m), sends(e, n, q, A, m)} :: sameBytes(d, e, n) && 0 <= q && sends(d, n, q, A, m) ==> sends(e, n, q, A, m)
lemma same_request : forall d [int]int, e [int]int, n int, A [int]string, m int {encodes(d, n, 0, A, m), fed(e)} :: fed(e) && sameBytes(d, e, n) && encodes(d, n, 0, A, m) ==> encodes(e, n, 0, A, m)

func v2.Server.React
kind process
props C24
modifies *, wrote, wroteTo, wroteText, late, keptFor, served, servedN, servedArgs, servedOff, servedText, mine, todo, asks, asked, askedOn, waited
requires 0 < ref(s) && allocated(s) && 0 < ref(s.pool) && allocated(s.pool) && c != nil && len(frame) <= 1099511627776
requires eventsRun()
// a frame that starts with a whole request has it carried out, once, with its own arguments
ensures [C24] forall A [int]string, n int {encodes(shift(old(arrayof(frame)), frame.off), len(frame), 0, A, n)} :: encodes(shift(old(arrayof(frame)), frame.off), len(frame), 0, A, n) ==> served == old(served) + 1 && servedN == n
ensures [C24] forall A [int]string, n int, k int {encodes(shift(old(arrayof(frame)), frame.off), len(frame), 0, A, n), A[k]} :: encodes(shift(old(arrayof(frame)), frame.off), len(frame), 0, A, n) && 0 <= k < n ==> servedArgs[servedOff + k] == A[k]
// the reply, and nothing else, goes to the connection the frame came from
ensures [C24] served != old(served) && 0 < len(servedText) ==> (if len(out) == 0 then wrote == old(wrote) + 1 && wroteText == servedText && wroteTo == ref(c) else wrote == old(wrote) && bstr(arrayof(out), out.off, len(out)) == servedText)
ensures [C24] served != old(served) && len(servedText) == 0 ==> len(out) == 0 && (wrote == old(wrote) || wrote == old(wrote) + 1 && len(wroteText) == 0)
// the connection stays open
ensures [C24] action == 0
// known findings (known-findings.txt): what the statement also asks for
def reqLen(A [int]string, n int) int = 3 + len(fmtint(n)) + apos(A, n)
ensures [C24 known:coalesced] forall A [int]string, n int, B [int]string, m int {encodes(shift(old(arrayof(frame)), frame.off), len(frame), 0, A, n), encodes(shift(old(arrayof(frame)), frame.off), len(frame), reqLen(A, n), B, m)} :: encodes(shift(old(arrayof(frame)), frame.off), len(frame), 0, A, n) && encodes(shift(old(arrayof(frame)), frame.off), len(frame), reqLen(A, n), B, m) ==> served >= old(served) + 2
ensures [C24 known:split] forall d [int]int, N int, A [int]string, n int {encodes(d, N, 0, A, n)} :: encodes(d, N, 0, A, n) && sameBytes(d, shift(old(arrayof(frame)), frame.off), len(frame)) && 0 < len(frame) && len(frame) < reqLen(A, n) ==> keptFor != old(keptFor)
ensures [C24 known:order] late == old(late)
