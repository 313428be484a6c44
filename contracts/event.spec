// Requests as events: one worker, one command at a time, each request answered by its own reply.
module event event

// tok == 1: this thread may run a command. held[ch] == 1: the permission comes back with what is received from ch.
threadvar tok int
threadvar held [int]int
// mine[ch]: this thread is to close ch; todo[c]: this thread is to execute the command c
threadvar mine [int]bool
threadvar todo [int]bool
// the last channel received from; how many commands were handed over, and the last of them with its done channel
threadvar waited int
threadvar asks int
threadvar asked int
threadvar askedOn int
// requests carried out: how many, the arguments of the last and the bytes of its reply
threadvar served int
threadvar servedN int
threadvar servedArgs [int]string
threadvar servedOff int
threadvar servedText string
// the one reply that comes through a channel of replies; the reply of a command; the event a done channel belongs to
ghostvar replyOn [int]int
ghostvar answer [int]int
ghostvar doneOf [int]int
stable GV:replyOn GV:answer GV:doneOf
stable F:event.Event.Cmd F:event.Event.done F:event.EventPool.eventChan F:event.worker.ep F:redis.Command.Ctx

def replyAt(r int) *protocol.Response = obj("*protocol.Response", r)
def cmdAt(r int) *redis.Command = obj("*redis.Command", r)
def eventAt(ch int) *Event = obj("*event.Event", doneOf[ch])
def goodReply(r *protocol.Response) bool = 0 < ref(r) && allocated(r) && (forall i int {r.Items[i]} :: 0 <= i < len(r.Items) ==> goodItem(r.Items[i]))
def answered(e *Event) bool = goodReply(e.Rsp) && ref(e.Rsp) == answer[ref(e.Cmd)]
def eventsRun() bool = 0 < ref(globalEventPool) && allocated(globalEventPool)
def request(e *Event) bool = 0 < ref(e) && allocated(e) && 0 < ref(e.Cmd) && allocated(e.Cmd) && 0 < ref(e.done) && doneOf[ref(e.done)] == ref(e) && e.Cmd.Ctx == nil

channel *protocol.Response
sends [C21] goodReply(msg)
onsend replyOn = replyOn[ref(ch) := ref(msg)]
onsend tok = 0
onclose tok = 0
gets old(held[ref(ch)]) == 1 && replyOn[ref(ch)] != 0 ==> ref(msg) == replyOn[ref(ch)] && goodReply(msg)
onrecv tok = tok + held[ref(ch)]
onrecv held = held[ref(ch) := 0]

channel *event.Event
sends [C21 C23] request(msg) && mine[ref(msg.done)] && todo[ref(msg.Cmd)]
onsend mine = mine[ref(msg.done) := false]
onsend todo = todo[ref(msg.Cmd) := false]
onsend asks = asks + 1
onsend asked = ref(msg.Cmd)
onsend askedOn = ref(msg.done)
gets ok ==> request(msg)
onrecv mine = if ok then mine[ref(msg.done) := true] else mine
onrecv todo = if ok then todo[ref(msg.Cmd) := true] else todo

channel struct{}
onmake mine = mine[ref(ch) := true]
closes [C21 C23] mine[ref(ch)] && (doneOf[ref(ch)] != 0 ==> answered(eventAt(ref(ch))))
sends [C21 C23] doneOf[ref(ch)] == 0
onclose mine = mine[ref(ch) := false]
gets doneOf[ref(ch)] != 0 ==> !ok && answered(eventAt(ref(ch)))
onrecv waited = ref(ch)

func event.NewEvent
props C21 C23
modifies mine, doneOf
requires 0 < ref(cmd) && allocated(cmd)
ensures fresh(result)
ensures fresh(result.done) && ref(result.Cmd) == ref(cmd) && 0 < ref(result.done) && ref(result) != 0
ensures mine == old(mine)[ref(result.done) := true]
update doneOf = old(doneOf)[ref(result.done) := ref(result)]

func event.HandleRequest
kind process
props C21 C23
modifies *, mine, todo, asks, asked, askedOn, waited, served, servedN, servedArgs, servedOff, servedText
update served = old(served) + 1
update servedN = old(len(rec.Elements))
update servedArgs = old(arrayof(rec.Elements))
update servedOff = old(rec.Elements.off)
update servedText = bstr(arrayof(result), result.off, len(result))
requires 0 < ref(rec) && allocated(rec)
requires eventsRun()
assert [C21] asks == old(asks) && msg.Cmd.Command == tolower(old(rec.Elements[0])) && len(msg.Cmd.Values) == old(len(rec.Elements)) - 1
assert [C21] forall i int {msg.Cmd.Values[i]} :: 0 <= i < old(len(rec.Elements)) - 1 ==> msg.Cmd.Values[i] == old(rec.Elements[i + 1])
ensures [C21] old(len(rec.Elements)) == 0 ==> asks == old(asks) && len(result) == 0
ensures [C21] old(len(rec.Elements)) > 0 ==> asks == old(asks) + 1
ensures [C21 C23] old(len(rec.Elements)) > 0 && waited == askedOn ==> bstr(arrayof(result), result.off, len(result)) == encoding(replyAt(answer[asked]))
ensures [C21 C23] old(len(rec.Elements)) > 0 && waited != askedOn ==> 0 < len(result) && arrayof(result)[result.off] == 45

func event.worker.run
kind process
props C21 C23
permission
modifies *, tok, held, mine, todo, waited
requires 0 < ref(w) && allocated(w) && 0 < ref(w.ep) && allocated(w.ep) && 0 < ref(wg)
requires [C23] tok == 1
spawns tok = 0
loop 0 invariant [C23] tok == 1
loop 0 invariant 0 < ref(w.ep) && allocated(w.ep)
loop 0 forever

func event.EventPool.startWorker
kind process
props C23
permission
modifies *, tok
requires 0 < ref(ep) && allocated(ep) && 0 < ref(ep.wg)
requires n <= 1
requires [C23] tok == 1
ensures [C23] tok == 0
loop 0 unroll 2

func event.NewEventPool
kind process
props C23
permission
modifies *, tok
requires [C23] tok == 1
ensures 0 < ref(result) && allocated(result)

func event.SetGlobalEventPool
props C21
modifies globalEventPool
ensures ref(globalEventPool) == ref(ep)

// the store is reached only through commands, and commands are run only with the permission
func table:access
kind access
props C23
