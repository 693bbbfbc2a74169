package attrs/memory
import attrs attrs
import encoding gonum.org/v1/gonum/graph/encoding

immutable *Attrs
impl *Attrs attrs.Attrs

func New() result
  props C01
  ensures result != nil && fresh(result) && *result != nil && fresh(*result)
  ensures forall k string :: !(k in *result)

func NewCopyFrom(ctx, a) (result, err)
  props C01
  requires a != nil
  loopinv forall k string :: k in $map ==> adom(a, k) && $map[k] == aval(a, k)
  ensures err != nil ==> afail(a) && result == nil
  ensures err == nil ==> result != nil && fresh(result) && *result != nil && fresh(*result)
  ensures err == nil ==> forall k string :: (k in *result <==> adom(a, k)) && (adom(a, k) ==> (*result)[k] == aval(a, k))

func NewFromMap(m) result
  props C01
  ensures result != nil && fresh(result) && *result != nil && fresh(*result)
  ensures forall k string :: (k in *result <==> k in m) && (k in m ==> (*result)[k] == m[k])

func (a Attrs) Keys(ctx) (result, err)
  props C01
  ensures err == nil
  ensures forall i int :: 0 <= i < len(result) ==> result[i] in a
  ensures forall k string :: k in a ==> exists i int :: 0 <= i < len(result) && result[i] == k
  ensures forall i, j int :: 0 <= i < j < len(result) ==> result[i] != result[j]

func (a Attrs) Get(ctx, key) (result, err)
  props C01
  ensures err == nil
  ensures result == if key in a then a[key] else ""

func (a *Attrs) Set(ctx, key, val) result
  props C01
  requires *a != nil
  modifies map(*a)
  ensures result == nil
  ensures key in *a && (*a)[key] == val
  ensures forall k string :: k != key ==> (k in *a <==> old(k in *a)) && (*a)[k] == old((*a)[k])

func (a Attrs) Attributes() result
  props C01
  ensures forall i int :: 0 <= i < len(result) ==> result[i].Key in a && result[i].Value == a[result[i].Key]
  ensures forall k string :: k in a ==> exists i int :: 0 <= i < len(result) && result[i].Key == k
  ensures forall i, j int :: 0 <= i < j < len(result) ==> result[i].Key != result[j].Key

func DOTAttrs(a) result
  props C01
  requires a != nil
  loopinv forall i int :: 0 <= i < len($dst) ==> adom(a, $dst[i].Key) && $dst[i].Value == aval(a, $dst[i].Key)
  ensures renders(result, a) || (afail(a) && len(result) == 0)
