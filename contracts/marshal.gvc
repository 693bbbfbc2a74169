# Wire records and space objects (C03).
package space/marshal
import space space
import entity space/entity
import link space/link
import marshal space/marshal
import attrs attrs
import memattrs attrs/memory
import memuid uuid/memory
import uuid uuid

# the map and the attribute set hold the same pairs
fun sameAttrs(m map[string]string, a attrs.Attrs) bool = forall k string :: (k in m <==> adom(a, k)) && (k in m ==> m[k] == aval(a, k))
fun entityRec(r marshal.Entity, e space.Entity) bool = r.UID == e.UID().String() && r.Type == e.Type() && sameAttrs(r.Attrs, e.Attrs())
fun resourceRec(r marshal.Resource, e space.Resource) bool = entityRec(r.Entity, e) && r.Name == e.Name() && r.Group == e.Group() && r.Version == e.Version() && r.Kind == e.Kind() && (r.Namespaced <==> e.Namespaced())
fun objectRec(r marshal.Object, e space.Object) bool = entityRec(r.Entity, e) && r.Name == e.Name() && r.Namespace == e.Namespace() && (r.Resource == nil <==> e.Resource() == nil) && (r.Resource != nil ==> resourceRec(*r.Resource, e.Resource()))
fun linkRec(r marshal.Link, l space.Link) bool = r.UID == l.UID().String() && r.From == l.From().String() && r.To == l.To().String() && sameAttrs(r.Attrs, l.Attrs())

func EntityToSpace(e) (result, err)
  props C03
  ensures err == nil && result != nil && entityRec(e, result)
  ensures awritable(result.Attrs()) && (result.Attrs() is *memattrs.Attrs) && fresh(*(result.Attrs() as *memattrs.Attrs))

func ResourceToSpace(r) (result, err)
  props C03
  ensures err == nil && result != nil && resourceRec(r, result)
  ensures awritable(result.Attrs()) && (result.Attrs() is *memattrs.Attrs) && fresh(*(result.Attrs() as *memattrs.Attrs))

func ObjectToSpace(o) (result, err)
  props C03
  ensures err == nil && result != nil && objectRec(o, result)
  ensures awritable(result.Attrs()) && (result.Attrs() is *memattrs.Attrs) && fresh(*(result.Attrs() as *memattrs.Attrs))

func LinkToSpace(l) (result, err)
  props C03
  ensures err == nil && result != nil && linkRec(l, result)
  ensures awritable(result.Attrs()) && (result.Attrs() is *memattrs.Attrs) && fresh(*(result.Attrs() as *memattrs.Attrs))

func EntityFromSpace(e) (result, err)
  props C03
  requires e != nil && e.Attrs() != nil
  ensures err != nil ==> result == nil && afail(e.Attrs())
  ensures err == nil ==> result != nil && fresh(result) && fresh(result.Attrs) && entityRec(*result, e)

func ResourceFromSpace(r) (result, err)
  props C03
  requires r != nil && r.Attrs() != nil
  ensures err != nil ==> result == nil && afail(r.Attrs())
  ensures err == nil ==> result != nil && fresh(result) && fresh(result.Attrs) && resourceRec(*result, r)

func ObjectFromSpace(e) (result, err)
  props C03
  requires e != nil && e.Attrs() != nil && (e.Resource() != nil ==> e.Resource().Attrs() != nil)
  ensures err != nil ==> result == nil && (afail(e.Attrs()) || e.Resource() != nil && afail(e.Resource().Attrs()))
  ensures err == nil ==> result != nil && fresh(result) && fresh(result.Attrs) && objectRec(*result, e) && (result.Resource != nil ==> fresh(result.Resource) && fresh(result.Resource.Attrs))

func LinkFromSpace(l) (result, err)
  props C03
  requires l != nil && l.Attrs() != nil
  ensures err != nil ==> result == nil && afail(l.Attrs())
  ensures err == nil ==> result != nil && fresh(result) && fresh(result.Attrs) && linkRec(*result, l)

jsonrecord Entity C04
jsonrecord Resource C04
jsonrecord Object C04
jsonrecord Link C04
