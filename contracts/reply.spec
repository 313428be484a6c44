// Replies, as the commands' contracts speak of them.
module reply redis

def arg(c *Command, i int) string = old(c.Values[i])
def argc(c *Command) int = old(len(c.Values))
def isErr(e error) bool = e != nil
def one(r *protocol.Response, e error) bool = e == nil && 0 < ref(r) && !r.IsArray && len(r.Items) == 1
def okInt(r *protocol.Response, e error, n int) bool = one(r, e) && r.Items[0].Type == protocol.TypeIntegers && r.Items[0].Value is int64 && r.Items[0].Value.(int64) == n
def okSimple(r *protocol.Response, e error, s string) bool = one(r, e) && r.Items[0].Type == protocol.TypeSimpleStrings && r.Items[0].Value is string && r.Items[0].Value.(string) == s
def okBulk(r *protocol.Response, e error, s string) bool = one(r, e) && r.Items[0].Type == protocol.TypeBulkStrings && r.Items[0].Value is string && r.Items[0].Value.(string) == s
def okNil(r *protocol.Response, e error) bool = e == nil && (ref(r) == 0 || !r.IsArray && (len(r.Items) == 0 || len(r.Items) == 1 && r.Items[0].Type == protocol.TypeBulkStrings && r.Items[0].Value == nil))
def okArr(r *protocol.Response, e error, n int) bool = e == nil && 0 < ref(r) && r.IsArray && len(r.Items) == n
// item i is the bulk string s / nil
def itemStr(r *protocol.Response, i int, s string) bool = r.Items[i].Type == protocol.TypeBulkStrings && r.Items[i].Value is string && r.Items[i].Value.(string) == s
def itemNil(r *protocol.Response, i int) bool = r.Items[i].Type == protocol.TypeBulkStrings && r.Items[i].Value == nil
def wfItem(t *protocol.ResponseItem) bool = 0 < ref(t) && allocated(t) && (t.Type == protocol.TypeSimpleStrings && t.Value is string || t.Type == protocol.TypeIntegers && t.Value is int64 || t.Type == protocol.TypeBulkStrings && (t.Value == nil || t.Value is string) || t.Type == protocol.TypeErrors && t.Value != nil && t.Value is error)
def wfReply(r *protocol.Response, e error) bool = e != nil || ref(r) == 0 || 0 < ref(r) && allocated(r) && (forall i int {r.Items[i]} :: 0 <= i < len(r.Items) ==> wfItem(r.Items[i]))

// the building blocks of replies are executed in place; their loops:
func protocol.Response.AppendBulkStrings
inline
loop 0 invariant fresh(r.Items) && len(r.Items) == len(strSlice) && 0 <= it <= len(strSlice)
loop 0 invariant forall k int {r.Items[k]} :: 0 <= k < it ==> fresh(r.Items[k]) && itemStr(r, k, strSlice[k])

func protocol.Response.AppendBulkInterfaces
inline
loop 0 invariant fresh(r.Items) && len(r.Items) == len(slice) && 0 <= it <= len(slice)
loop 0 invariant forall k int {r.Items[k]} :: 0 <= k < it ==> fresh(r.Items[k]) && r.Items[k].Type == protocol.TypeBulkStrings && r.Items[k].Value == slice[k]

// the text of item i, and replies that list texts
def item(r *protocol.Response, i int) string = r.Items[i].Value.(string)
def bulkArr(r *protocol.Response, e error, n int) bool = okArr(r, e, n) && (forall i int {r.Items[i]} :: 0 <= i < n ==> r.Items[i].Type == protocol.TypeBulkStrings && r.Items[i].Value is string)
// the items are exactly the elements of D, each once
def enumArr(r *protocol.Response, e error, D [string]bool) bool = bulkArr(r, e, card(D)) && (forall i int {r.Items[i]} :: 0 <= i < card(D) ==> D[item(r, i)]) && (forall i int, j int {r.Items[i], r.Items[j]} :: 0 <= i < j < card(D) ==> item(r, i) != item(r, j))
def argsKept(c *Command) bool = argc(c) == len(c.Values) && (forall i int {c.Values[i]} :: 0 <= i < argc(c) ==> c.Values[i] == arg(c, i))
