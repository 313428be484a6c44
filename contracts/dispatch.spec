// From a request to its command and its one reply.
module dispatch redis

func redis.NewCommandFromReceive
props C21
modifies todo
requires 0 < ref(rec)
ensures ref(result) == 0 || fresh(result)
ensures ref(result) != 0 ==> old(len(rec.Elements)) > 0 && result.Ctx == nil
update todo = if old(len(rec.Elements)) > 0 then old(todo)[ref(result) := true] else old(todo)
ensures [C21 C20] old(len(rec.Elements)) == 0 ==> ref(result) == 0
ensures [C21] old(len(rec.Elements)) > 0 ==> 0 < ref(result) && allocated(result) && result.Command == tolower(old(rec.Elements[0])) && len(result.Values) == old(len(rec.Elements)) - 1
ensures [C21] old(len(rec.Elements)) > 0 ==> (forall i int {result.Values[i]} :: 0 <= i < old(len(rec.Elements)) - 1 ==> result.Values[i] == old(rec.Elements[i + 1]))

def registered(n string) bool = domof(implementedCommands)[n]
def errorReply(r *protocol.Response, e error) bool = 0 < ref(r) && allocated(r) && !r.IsArray && len(r.Items) == 1 && 0 < ref(r.Items[0]) && allocated(r.Items[0]) && r.Items[0].Type == protocol.TypeErrors && r.Items[0].Value == e
def nilReply(r *protocol.Response) bool = 0 < ref(r) && allocated(r) && !r.IsArray && len(r.Items) == 0

// f_n calls of handlers were made, the last of f_fn with f_arg0 and results f_res0, f_res1;
// s_n values were sent, the last one, s_what, to channel s_to; s_closed was closed
func redis.Command.ExecuteAsync
props C19 C20 C21
kind dispatcher
requires 0 < ref(c) && allocated(c)
permission
modifies *, tok, held, todo
given wfReply(f_res0, f_res1)
requires [C21] todo[ref(c)]
requires [C23] tok == 1
ensures [C23] tok == 0
ensures 0 < ref(result)
ensures [C21] old(c.Ctx) == nil ==> replyOn[ref(result)] != 0
update held = old(held)[ref(result) := 1]
update todo = old(todo)[ref(c) := false]
update answer = old(answer)[ref(c) := replyOn[ref(result)]]
assert [C23] tok == 1
assert [C21] s_n == 0 && s_closed == 0
assert [C21] f_n == 0 && ref(f_arg0) == ref(c) && c.Values == old(c.Values) && c.Command == old(c.Command)
internally [C21] !old(registered(c.Command)) ==> f_n == 0
internally [C21] old(registered(c.Command)) ==> f_n == 1 && f_fn == old(valof(implementedCommands)[c.Command])
internally [C21] s_n <= 1 && s_closed == ref(result)
internally [C21] old(c.Ctx) == nil && (f_n == 0 || c.Ctx == nil) ==> s_n == 1 && s_to == ref(result)
internally [C21 C19] s_n == 1 && !old(registered(c.Command)) ==> errorReply(s_what, ErrUnknownCommand)
internally [C21 C19] s_n == 1 && old(registered(c.Command)) && f_res1 != nil ==> errorReply(s_what, f_res1)
internally [C21 C19] s_n == 1 && old(registered(c.Command)) && f_res1 == nil && ref(f_res0) == 0 ==> nilReply(s_what)
internally [C21 C19] s_n == 1 && old(registered(c.Command)) && f_res1 == nil && ref(f_res0) != 0 ==> ref(s_what) == ref(f_res0)

// what is received is what was sent
internally [C21] s_n == 1 ==> replyOn[ref(result)] == ref(s_what)

// every registered handler is under contract
func table:commands
kind table
props C14 C15 C19 C20 C21
