// lib/shard_map: a sharded map behaves as one finite map from strings to values.
module smap smap
private =MD:string:interface{} =MV:string:interface{}

ghost Map.isMap bool
ghost Map.dom [string]bool
ghost Map.val [string]any

def shardAt(r int, i int) *Shard = elem("*smap.Shard", r, i)
def itemsOf(r int, i int) int = ref(elem("*smap.Shard", r, i).items)
def slot(k string) int = fnv32(k) % 32
def MAPS(r int) bool = gh("smap.Map.isMap", r)
def DOM(r int) [string]bool = gh("smap.Map.dom", r)
def VAL(r int) [string]any = gh("smap.Map.val", r)
// a usable map value
def wfmap(m Map) bool = gh("smap.Map.isMap", ref(m)) && len(m) == 32 && m.off == 0 && 0 < ref(m)
def sdom(r int, i int) [string]bool = domof(elem("*smap.Shard", r, i).items)
def sval(r int, i int) [string]any = valof(elem("*smap.Shard", r, i).items)

invariant @maps-exist forall r int {MAPS(r)} :: MAPS(r) ==> 0 < r && allocated(obj("*smap.Shard", r))
invariant @shards-exist forall r int, i int {shardAt(r, i)} :: MAPS(r) && 0 <= i < 32 ==> 0 < ref(shardAt(r, i)) && allocated(shardAt(r, i)) && 0 < itemsOf(r, i) && allocated(shardAt(r, i).items)
invariant @shards-apart forall r int, i int, s int, j int {itemsOf(r, i), itemsOf(s, j)} :: MAPS(r) && MAPS(s) && 0 <= i < 32 && 0 <= j < 32 && itemsOf(r, i) == itemsOf(s, j) ==> r == s && i == j
invariant @domain forall r int, k string {DOM(r)[k]} :: MAPS(r) ==> DOM(r)[k] == sdom(r, slot(k))[k]
invariant @values forall r int, k string {VAL(r)[k]} :: MAPS(r) && DOM(r)[k] ==> VAL(r)[k] == sval(r, slot(k))[k]
invariant @sharding forall r int, i int, k string {sdom(r, i)[k]} :: MAPS(r) && 0 <= i < 32 && sdom(r, i)[k] ==> slot(k) == i && DOM(r)[k]

// no map ever has 2^60 entries
assume @memory forall r int {DOM(r)} :: MAPS(r) ==> card(DOM(r)) <= 1152921504606846976

func smap.New
props C22
ensures fresh(result)
ensures wfmap(result)
update result.isMap = true
update result.dom = emptyset()
ensures result.dom == emptyset()
loop 0 invariant len(m) == 32 && m.off == 0 && fresh(m)
loop 0 invariant 0 <= i <= 32
loop 0 invariant forall j int {shardAt(ref(m), j)} :: 0 <= j < i ==> fresh(shardAt(ref(m), j)) && fresh(shardAt(ref(m), j).items) && ref(m) < itemsOf(ref(m), j)
loop 0 invariant forall j int, k string {sdom(ref(m), j)[k]} :: 0 <= j < i ==> !sdom(ref(m), j)[k]
loop 0 invariant forall a int, b int {itemsOf(ref(m), a), itemsOf(ref(m), b)} :: 0 <= a < b < i ==> itemsOf(ref(m), a) != itemsOf(ref(m), b)

func smap.Map.Get
props C22
requires wfmap(m)
ensures result1 == m.dom[key]
ensures result0 == (if m.dom[key] then m.val[key] else nil)

func smap.Map.Has
props C22
requires wfmap(m)
ensures result == m.dom[key]
ensures @bounded card(m.dom) <= 1152921504606846976

func smap.Map.Set
props C22
requires wfmap(m)
modifies Map.dom[m], Map.val[m]
update m.dom = old(m.dom)[key := true]
update m.val = old(m.val)[key := value]

func smap.Map.SetIfAbsent
props C22
requires wfmap(m)
modifies Map.dom[m], Map.val[m]
update m.dom = old(m.dom)[key := true]
update m.val = if old(m.dom)[key] then old(m.val) else old(m.val)[key := value]
ensures result == !old(m.dom)[key]
ensures @bounded card(old(m.dom)) <= 1152921504606846976

func smap.Map.DeleteIfExists
props C22
requires wfmap(m)
modifies Map.dom[m], Map.val[m]
update m.dom = old(m.dom)[key := false]
update m.val = old(m.val)
ensures result == old(m.dom)[key]

func smap.Map.LoadAndDelete
props C22
requires wfmap(m)
modifies Map.dom[m], Map.val[m]
update m.dom = old(m.dom)[key := false]
update m.val = old(m.val)
ensures result1 == old(m.dom)[key]
ensures result0 == (if old(m.dom)[key] then old(m.val)[key] else nil)

func smap.Map.Delete
props C22
requires wfmap(m)
modifies Map.dom[m], Map.val[m]
update m.dom = old(m.dom)[key := false]
update m.val = old(m.val)

// s lists exactly the elements of D, each once
def enum(s []string, D [string]bool) bool = len(s) == card(D) && (forall i int {s[i]} :: 0 <= i < len(s) ==> D[s[i]]) && (forall i int, j int {s[i], s[j]} :: 0 <= i < j < len(s) ==> s[i] != s[j])

func smap.Map.Keys
props C22
requires wfmap(m)
ensures @enumerates enum(result, m.dom)
ensures fresh(result)
loop 0 ghost seen [string]bool = emptyset()
loop 0 invariant fresh(keys) && 0 <= it <= 32
loop 0 invariant enum(keys, seen)
loop 0 invariant forall k string {seen[k]} {m.dom[k]} :: seen[k] == (m.dom[k] && slot(k) < it)
loop 1 invariant fresh(keys) && 0 <= i < 32
loop 1 invariant enum(keys, seen)
loop 1 invariant forall k string {seen[k]} {m.dom[k]} :: seen[k] == (m.dom[k] && (slot(k) < i || slot(k) == i && visited[k]))
loop 1 step seen = seen[key := true]

func smap.Map.Items
props C22
requires wfmap(m)
ensures fresh(result)
ensures @copy domof(result) == m.dom
ensures @copy-values forall k string {valof(result)[k]} :: m.dom[k] ==> valof(result)[k] == m.val[k]
loop 0 invariant fresh(tmp) && 0 <= it <= 32
loop 0 invariant forall k string {domof(tmp)[k]} {m.dom[k]} :: domof(tmp)[k] == (m.dom[k] && slot(k) < it)
loop 0 invariant forall k string {valof(tmp)[k]} :: domof(tmp)[k] ==> valof(tmp)[k] == m.val[k]
loop 1 invariant fresh(tmp) && 0 <= i < 32
loop 1 invariant forall k string {domof(tmp)[k]} {m.dom[k]} :: domof(tmp)[k] == (m.dom[k] && (slot(k) < i || slot(k) == i && visited[k]))
loop 1 invariant forall k string {valof(tmp)[k]} :: domof(tmp)[k] ==> valof(tmp)[k] == m.val[k]

// Range calls f on every entry once, in some order, until f returns false.
func smap.Map.Range
props C22
kind iterator
requires wfmap(m)
assert @entry m.dom[f_arg0] && f_arg1 == m.val[f_arg0]
assert @once !f_visited[f_arg0]
assert @continues f_n == 0 || f_res0
ensures @all f_visited == m.dom || f_n > 0 && !f_res0
loop 0 invariant 0 <= it <= 32 && f_n >= 0 && (f_n == 0 || f_res0)
loop 0 invariant forall k string {f_visited[k]} {m.dom[k]} :: f_visited[k] == (m.dom[k] && slot(k) < it)
loop 1 invariant 0 <= i < 32 && f_n >= 0 && (f_n == 0 || f_res0)
loop 1 invariant forall k string {f_visited[k]} {m.dom[k]} :: f_visited[k] == (m.dom[k] && (slot(k) < i || slot(k) == i && visited[k]))

def lessSet(a [string]bool, b [string]bool) [string]bool
axiom forall a [string]bool, b [string]bool, k string {lessSet(a, b)[k]} :: lessSet(a, b)[k] == (a[k] && !b[k])

// the entries of map m while some have already been deleted from the shards; every other map is untouched
def mid(m Map, del [string]bool) bool = (forall k string {DOM(ref(m))[k]} {sdom(ref(m), slot(k))[k]} :: sdom(ref(m), slot(k))[k] == (DOM(ref(m))[k] && !del[k])) && (forall r int, k string {DOM(r)[k]} :: MAPS(r) && r != ref(m) ==> DOM(r)[k] == sdom(r, slot(k))[k]) && (forall r int, i int, k string {sdom(r, i)[k]} :: MAPS(r) && 0 <= i < 32 && sdom(r, i)[k] ==> slot(k) == i && DOM(r)[k])

// RangeAndDelete also removes the entries for which f says so, after f returned.
func smap.Map.RangeAndDelete
props C22
kind iteratordel
requires wfmap(m)
modifies Map.dom[m]
assert @entry old(m.dom)[f_arg0] && f_arg1 == old(m.val)[f_arg0]
assert @once !f_visited[f_arg0]
assert @continues f_n == 0 || f_res1
update m.dom = lessSet(old(m.dom), f_deleted)
ensures @all f_visited == old(m.dom) || f_n > 0 && !f_res1
loop 0 invariant 0 <= it <= 32 && f_n >= 0 && (f_n == 0 || f_res1)
loop 0 invariant forall k string {f_visited[k]} {m.dom[k]} :: f_visited[k] == (m.dom[k] && slot(k) < it)
loop 0 invariant forall k string {f_deleted[k]} :: f_deleted[k] ==> f_visited[k]
loop 0 invariant mid(m, f_deleted)
loop 1 invariant 0 <= i < 32 && f_n >= 0 && (f_n == 0 || f_res1)
loop 1 invariant forall k string {f_visited[k]} {m.dom[k]} :: f_visited[k] == (m.dom[k] && (slot(k) < i || slot(k) == i && visited[k]))
loop 1 invariant forall k string {f_deleted[k]} :: f_deleted[k] ==> f_visited[k]
loop 1 invariant mid(m, f_deleted)

func smap.Map.Upsert
props C22
kind upsert
requires wfmap(m)
modifies Map.dom[m], Map.val[m]
assert f_n == 0 && f_arg0 == m.dom[key] && f_arg1 == (if m.dom[key] then m.val[key] else nil) && f_arg2 == value
update m.dom = if f_res1 then m.dom else m.dom[key := true]
update m.val = if f_res1 then m.val else m.val[key := f_res0]
ensures f_n == 1 && result0 == f_res0 && result1 == f_res1
ensures @bounded card(old(m.dom)) <= 1152921504606846976
