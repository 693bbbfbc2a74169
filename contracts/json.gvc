# encoding/json: what decoding a record yields is a function of the bytes; absent members leave the
# target's field alone, so the target has to be zero to start with.
package encoding/json
import marshal space/marshal
import space space
import attrs attrs
import uuid uuid
ufun jok(d string, rec string) bool
ufun jstr(d string, path string) string
ufun jbool(d string, path string) bool
ufun jhas(d string, path string) bool
ufun jkey(d string, path string, k string) bool
ufun jval(d string, path string, k string) string

fun jattrs(d string, path string, m map[string]string) bool = forall k string :: (k in m <==> jkey(d, path, k)) && (k in m ==> m[k] == jval(d, path, k))
fun jentity(d string, path string, e marshal.Entity) bool = e.UID == jstr(d, path + "uid") && e.Type == jstr(d, path + "type") && jattrs(d, path + "attrs", e.Attrs)
fun jresource(d string, path string, r marshal.Resource) bool = jentity(d, path, r.Entity) && r.Name == jstr(d, path + "name") && r.Group == jstr(d, path + "group") && r.Version == jstr(d, path + "version") && r.Kind == jstr(d, path + "kind") && (r.Namespaced <==> jbool(d, path + "namespaced"))
fun jobject(d string, o marshal.Object) bool = jentity(d, "", o.Entity) && o.Name == jstr(d, "name") && o.Namespace == jstr(d, "namespace") && (o.Resource != nil <==> jhas(d, "resource")) && (o.Resource != nil ==> jresource(d, "resource.", *o.Resource))
fun jlink(d string, l marshal.Link) bool = l.UID == jstr(d, "uid") && l.From == jstr(d, "from") && l.To == jstr(d, "to") && jattrs(d, "attrs", l.Attrs)
fun noEntity(e marshal.Entity) bool = e.UID == "" && e.Type == "" && e.Attrs == nil
fun noResource(r marshal.Resource) bool = noEntity(r.Entity) && r.Name == "" && r.Group == "" && r.Version == "" && r.Kind == "" && !r.Namespaced

# the same for the space object that the JSON describes
fun sattrs(d string, path string, a attrs.Attrs) bool = forall k string :: (adom(a, k) <==> jkey(d, path, k)) && (adom(a, k) ==> aval(a, k) == jval(d, path, k))
fun sentity(d string, path string, e space.Entity) bool = e.UID().String() == jstr(d, path + "uid") && e.Type() == jstr(d, path + "type") && sattrs(d, path + "attrs", e.Attrs())
fun sresource(d string, path string, r space.Resource) bool = sentity(d, path, r) && r.Name() == jstr(d, path + "name") && r.Group() == jstr(d, path + "group") && r.Version() == jstr(d, path + "version") && r.Kind() == jstr(d, path + "kind") && (r.Namespaced() <==> jbool(d, path + "namespaced"))
fun sobject(d string, o space.Object) bool = sentity(d, "", o) && o.Name() == jstr(d, "name") && o.Namespace() == jstr(d, "namespace") && (o.Resource() != nil <==> jhas(d, "resource")) && (o.Resource() != nil ==> sresource(d, "resource.", o.Resource()))
fun slink(d string, l space.Link) bool = l.UID().String() == jstr(d, "uid") && l.From().String() == jstr(d, "from") && l.To().String() == jstr(d, "to") && sattrs(d, "attrs", l.Attrs())

extern func Marshal(v) (data, err)
  flag event JSONMarshal
extern func Unmarshal(data, v) err
  flag event JSONUnmarshal
  requires v is *marshal.Entity ==> noEntity(*(v as *marshal.Entity))
  requires v is *marshal.Resource ==> noResource(*(v as *marshal.Resource))
  requires v is *marshal.Object ==> noEntity((v as *marshal.Object).Entity) && (v as *marshal.Object).Name == "" && (v as *marshal.Object).Namespace == "" && (v as *marshal.Object).Resource == nil
  requires v is *marshal.Link ==> (v as *marshal.Link).UID == "" && (v as *marshal.Link).From == "" && (v as *marshal.Link).To == "" && (v as *marshal.Link).Attrs == nil
  modifies cell(if v is *marshal.Entity then v as *marshal.Entity else nil), cell(if v is *marshal.Resource then v as *marshal.Resource else nil), cell(if v is *marshal.Object then v as *marshal.Object else nil), cell(if v is *marshal.Link then v as *marshal.Link else nil)
  ensures err == nil && (v is *marshal.Entity) ==> jentity(bytes(data), "", *(v as *marshal.Entity))
  ensures err == nil && (v is *marshal.Resource) ==> jresource(bytes(data), "", *(v as *marshal.Resource))
  ensures err == nil && (v is *marshal.Object) ==> jobject(bytes(data), *(v as *marshal.Object))
  ensures err == nil && (v is *marshal.Link) ==> jlink(bytes(data), *(v as *marshal.Link))
