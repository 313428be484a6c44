// Commands on keys of any kind.
module store datastruct

def matching(D [string]bool, p string) [string]bool
axiom forall D [string]bool, p string, k string {matching(D, p)[k]} :: matching(D, p)[k] == (D[k] && globmatch(p, k))

func datastruct.Keys
inline
range 0 ghost S [string]bool = emptyset()
range 0 invariant enum(keys, S) && (len(keys) == 0 || fresh(keys))
range 0 invariant forall k string {S[k]} {visited[k]} :: S[k] == (visited[k] && globmatch(pattern, k))
range 0 step S = if globmatch(pattern, itkey) then S[itkey := true] else S

command keys
props C16
ensures [C20 C16] argc(c) < 1 || !globok(arg(c, 0)) ==> isErr(result1)
ensures [C16] argc(c) >= 1 && globok(arg(c, 0)) ==> enumArr(result0, result1, matching(DOM(KEYS()), arg(c, 0)))
ensures [C15 C16] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command exists
props C16
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C16] argc(c) >= 1 ==> okInt(result0, result1, if has(arg(c, 0)) then 1 else 0)
ensures [C15 C16] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command type
props C16
ensures [C20] argc(c) < 1 ==> isErr(result1)
ensures [C16] argc(c) >= 1 ==> okSimple(result0, result1, if has(arg(c, 0)) then info(arg(c, 0)).Type else "none")
ensures [C15 C16] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command del
props C16
ensures [C20 C16] argc(c) < 1 ==> isErr(result1) && storeSame()
ensures [C16] argc(c) >= 1 ==> okInt(result0, result1, if old(has(arg(c, 0))) then 1 else 0) && !has(arg(c, 0))
ensures [C15] argc(c) >= 1 ==> sameExcept(arg(c, 0))
ensures [C20 C19] wfReply(result0, result1)

command ping
props C21
ensures [C21] okSimple(result0, result1, "PONG")
ensures [C15] storeSame()
ensures [C20 C19] wfReply(result0, result1)

command command
props C21
ensures [C21] okSimple(result0, result1, "COMMAND")
ensures [C15] storeSame()
ensures [C20 C19] wfReply(result0, result1)
