# Attribute sets: finite string maps (C01).
package attrs
import attrs attrs
import memattrs attrs/memory
import encoding gonum.org/v1/gonum/graph/encoding

# Any implementation other than the repository's: its keys and values, and whether reading it can fail.
ghost gdom(attrs.Attrs, string) bool
ghost gval(attrs.Attrs, string) string
ufun gfail(a attrs.Attrs) bool

fun adom(a attrs.Attrs, k string) bool = if a is *memattrs.Attrs then k in *(a as *memattrs.Attrs) else gdom(a, k)
fun aval(a attrs.Attrs, k string) string = if a is *memattrs.Attrs then (*(a as *memattrs.Attrs))[k] else gval(a, k)
fun afail(a attrs.Attrs) bool = !(a is *memattrs.Attrs) && gfail(a)
# a writable set: the map of the repository's own kind has been made
fun awritable(a attrs.Attrs) bool = a is *memattrs.Attrs ==> (a as *memattrs.Attrs) != nil && *(a as *memattrs.Attrs) != nil

fun lists(ks []string, a attrs.Attrs) bool = (forall i int :: 0 <= i < len(ks) ==> adom(a, ks[i])) && (forall k string :: adom(a, k) ==> exists i int :: 0 <= i < len(ks) && ks[i] == k) && (forall i, j int :: 0 <= i < j < len(ks) ==> ks[i] != ks[j])
fun renders(as []encoding.Attribute, a attrs.Attrs) bool = (forall i int :: 0 <= i < len(as) ==> adom(a, as[i].Key) && as[i].Value == aval(a, as[i].Key)) && (forall k string :: adom(a, k) ==> exists i int :: 0 <= i < len(as) && as[i].Key == k) && (forall i, j int :: 0 <= i < j < len(as) ==> as[i].Key != as[j].Key)

iface Attrs
method Keys(ctx) (keys, err)
  props C01
  ensures err != nil ==> afail(self)
  ensures err == nil ==> lists(keys, self)
method Get(ctx, key) (val, err)
  props C01
  ensures err != nil ==> afail(self)
  ensures err == nil && adom(self, key) ==> val == aval(self, key)
method Set(ctx, key, val) err
  props C01
  requires awritable(self)
  modifies ghost gdom(self), ghost gval(self), map(if self is *memattrs.Attrs then *(self as *memattrs.Attrs) else zero(memattrs.Attrs))
  ensures err == nil ==> adom(self, key) && aval(self, key) == val
  ensures err == nil ==> forall k string :: k != key ==> (adom(self, k) <==> old(adom(self, k))) && aval(self, k) == old(aval(self, k))

func ToMap(ctx, a) (result, err)
  props C01
  requires a != nil
  loopinv forall k string :: k in $map ==> adom(a, k) && $map[k] == aval(a, k)
  ensures err != nil ==> afail(a) && result == nil
  ensures err == nil ==> result != nil && fresh(result) && forall k string :: (k in result <==> adom(a, k)) && (adom(a, k) ==> result[k] == aval(a, k))
