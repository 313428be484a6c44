// Replies as bytes.
module proto protocol

def oneline(s string) bool = !contains(s, "\r") && !contains(s, "\n")
def line(s string) string = replaceall(replaceall(s, "\r", " "), "\n", " ")

// texts that are sent as one line are one line, and otherwise unchanged
func protocol.oneLine
props C19
ensures [C19] oneline(result)
ensures [C19] oneline(s) ==> result == s
ensures [C19] result == line(s)

func util.StringConcat
inline
loop 0 unroll 8

// the bytes of one item
def simpleText(s string) string = "+" + line(s) + "\r\n"
def errorText(e error) string = "-" + line(errmsg(e)) + "\r\n"
def intText(n int) string = ":" + fmtint(n) + "\r\n"
def bulkText(s string) string = "$" + fmtint(len(s)) + "\r\n" + s + "\r\n"
def itemText(t *ResponseItem) string = if t.Type == TypeSimpleStrings then simpleText(t.Value.(string)) else if t.Type == TypeErrors then errorText(t.Value.(error)) else if t.Type == TypeIntegers then intText(t.Value.(int64)) else if t.Value == nil then "$-1\r\n" else bulkText(t.Value.(string))
def goodItem(t *ResponseItem) bool = 0 < ref(t) && allocated(t) && (t.Type == TypeSimpleStrings && t.Value is string || t.Type == TypeIntegers && t.Value is int64 || t.Type == TypeBulkStrings && (t.Value == nil || t.Value is string) || t.Type == TypeErrors && t.Value != nil && t.Value is error)

// the first n texts of X one after the other
rec catN(X [int]string, n int) string = if n <= 0 then "" else catN(X, n - 1) + X[n - 1]
def itemTexts(r *Response) [int]string = lambda p int :: itemText(r.Items[p])

ghost bytes.Buffer.content string

func protocol.ResponseItem.encode
props C19
requires goodItem(ri) && 0 < ref(buf) && allocated(buf)
modifies bytes.Buffer.content[buf]
ensures [C19] buf.content == old(buf.content) + itemText(ri)

def encoding(r *Response) string = if len(r.Items) == 0 then (if r.IsArray then "*0\r\n" else "$-1\r\n") else if !r.IsArray then itemText(r.Items[0]) else "*" + fmtint(len(r.Items)) + "\r\n" + catN(itemTexts(r), len(r.Items))

func protocol.Response.Encode
props C19
requires 0 < ref(r) && allocated(r)
requires forall i int {r.Items[i]} :: 0 <= i < len(r.Items) ==> goodItem(r.Items[i])
ensures [C19] bstr(arrayof(result), result.off, len(result)) == encoding(r)
loop 0 invariant buf.content == "*" + fmtint(len(r.Items)) + "\r\n" + catN(itemTexts(r), it)
