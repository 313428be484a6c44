// The keyspace: what every key holds, and that no two keys share storage.
module store datastruct

// own[r] is the key that owns the object at reference r
ghostvar own [int]string

def KEYS() int = ref(defaultCache.keys)
def has(k string) bool = DOM(KEYS())[k]
def entry(k string) any = VAL(KEYS())[k]
def info(k string) *KeyInfo = entry(k).(*KeyInfo)
def kindIs(k string, t KeyType) bool = has(k) && info(k).Type == t
def isString(k string) bool = kindIs(k, KeyTypeString)
def isList(k string) bool = kindIs(k, KeyTypeList)
def isSet(k string) bool = kindIs(k, KeyTypeSet)
def isHash(k string) bool = kindIs(k, KeyTypeHashTable)
def isZSet(k string) bool = kindIs(k, KeyTypeSortedSet)
def strOf(k string) string = info(k).Value.(string)
def listOf(k string) *List = info(k).Value.(*List)
def setOf(k string) *set = info(k).Value.(*set)
// the members of a set object
def mem(s *set) [string]bool = DOM(ref(s.m))
def goodSet(s *set) bool = 0 < ref(s) && allocated(s) && wfmap(s.m) && allocated(s.m) && s.length == card(mem(s))

def hashOf(k string) *hashTable = info(k).Value.(*hashTable)
// the fields of a hash object and their values: a text, or a number that stands for its canonical text
def flds(h *hashTable) [string]bool = DOM(ref(h.table))
def fval(h *hashTable) [string]any = VAL(ref(h.table))
def goodHash(h *hashTable) bool = 0 < ref(h) && allocated(h) && wfmap(h.table) && allocated(h.table) && h.length == card(flds(h))
def fieldKind(v any) bool = v is string || v is int64 || v is float64
def text(v any) string = if v is string then v.(string) else if v is int64 then fmtint(v.(int64)) else fmtfloat(v.(float64))

// a sorted set: its skip list holds the members in order, its dictionary maps each member to its node's score
def zsetOf(k string) *zSet = info(k).Value.(*zSet)
def zslOf(k string) *zSkipList = zsetOf(k).zsl
def zent(s *zSet, f string) *dictEntry = VAL(ref(s.m))[f].(*dictEntry)
def goodZSet(s *zSet) bool = 0 < ref(s) && allocated(s) && wfmap(s.m) && allocated(s.m) && 0 < ref(s.zsl) && allocated(s.zsl) && s.zsl.ok && DOM(ref(s.m)) == s.zsl.mem && s.zsl.length == card(s.zsl.mem)
def zentry(s *zSet, f string) bool = VAL(ref(s.m))[f] is *dictEntry && 0 < ref(zent(s, f)) && allocated(zent(s, f)) && zent(s, f).value is *float64 && zent(s, f).value.(*float64) == addr(zn(nodeOf(s.zsl, f)).score)

invariant @keyspace ref(defaultCache) != 0 && wfmap(defaultCache.keys) && allocated(defaultCache) && allocated(defaultCache.keys)
invariant @infos forall k string {has(k)} :: has(k) ==> entry(k) is *KeyInfo && 0 < ref(info(k)) && allocated(info(k)) && own[ref(info(k))] == k
invariant @strings forall k string {has(k)} :: isString(k) ==> info(k).Value is string
invariant @lists forall k string {has(k)} :: isList(k) ==> info(k).Value is *List && 0 < ref(listOf(k)) && allocated(listOf(k)) && own[ref(listOf(k))] == k && listOf(k).length > 0
invariant @sets forall k string {has(k)} :: isSet(k) ==> info(k).Value is *set && goodSet(setOf(k)) && setOf(k).length > 0 && own[ref(setOf(k))] == k && own[ref(setOf(k).m)] == k && ref(setOf(k).m) != KEYS()
invariant @hashes forall k string {has(k)} :: isHash(k) ==> info(k).Value is *hashTable && goodHash(hashOf(k)) && hashOf(k).length > 0 && own[ref(hashOf(k))] == k && own[ref(hashOf(k).table)] == k && ref(hashOf(k).table) != KEYS()
invariant @fields forall k string, f string {has(k), fval(hashOf(k))[f]} :: isHash(k) && flds(hashOf(k))[f] ==> fieldKind(fval(hashOf(k))[f])

invariant @zsets forall k string {has(k)} :: isZSet(k) ==> info(k).Value is *zSet && goodZSet(zsetOf(k)) && zslOf(k).length > 0 && own[ref(zsetOf(k))] == k && own[ref(zsetOf(k).m)] == k && own[ref(zslOf(k))] == k && ref(zsetOf(k).m) != KEYS()
invariant @zentries forall k string, f string {has(k), zslOf(k).mem[f]} :: isZSet(k) && zslOf(k).mem[f] ==> zentry(zsetOf(k), f) && znode(zslOf(k), f)
invariant @kinds forall k string {has(k)} :: has(k) ==> isString(k) || isList(k) || isSet(k) || isHash(k) || isZSet(k)

// key k holds what it held before
def same(k string) bool = has(k) == old(has(k)) && (has(k) ==> info(k).Type == old(info(k).Type) && (isString(k) ==> strOf(k) == old(strOf(k))) && (isList(k) ==> sameList(listOf(k), old(listOf(k)))) && (isSet(k) ==> mem(setOf(k)) == old(mem(setOf(k)))) && (isHash(k) ==> flds(hashOf(k)) == old(flds(hashOf(k))) && fval(hashOf(k)) == old(fval(hashOf(k)))) && (isZSet(k) ==> sameZSL(zslOf(k), old(zslOf(k)))))
def sameZSL(a *zSkipList, b *zSkipList) bool = a.length == old(b.length) && a.mem == old(b.mem) && a.sc == old(b.sc) && a.vals == old(b.vals)
def sameList(a *List, b *List) bool = a.length == old(b.length) && a.lo == old(b.lo) && a.seq == old(b.seq)
def sameExcept(k string) bool = forall j string {has(j)} :: j != k ==> same(j)
def storeSame() bool = forall j string {has(j)} :: same(j)
def gone(k string) bool = !has(k)
// the owner map after the objects of key k may have been created
def ownNow(k string) [int]string = if has(k) then (let o = own[ref(info(k)) := k] in if isList(k) then o[ref(listOf(k)) := k] else if isSet(k) then o[ref(setOf(k)) := k][ref(setOf(k).m) := k] else if isHash(k) then o[ref(hashOf(k)) := k][ref(hashOf(k).table) := k] else if isZSet(k) then o[ref(zsetOf(k)) := k][ref(zsetOf(k).m) := k][ref(zslOf(k)) := k] else o) else own

// the keyspace starts out empty
func datastruct.newMemoryCache
initially defaultCache
ensures fresh(result)
ensures DOM(ref(result.keys)) == emptyset()
