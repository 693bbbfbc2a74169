# Space objects: what they are made of is what they report (C02).
package space/entity
import space space
import entity space/entity
import attrs attrs
import memattrs attrs/memory
import memuid uuid/memory
import uuid uuid

pure UID String Type Attrs Name Group Version Kind Namespaced Namespace Resource From To
immutable Entity.uid Entity.typ Entity.attrs
immutable Resource.uid Resource.typ Resource.name Resource.group Resource.version Resource.kind Resource.namespaced Resource.attrs
immutable Object.uid Object.typ Object.name Object.ns Object.res Object.attrs

fun newUID(u uuid.UID) bool = u != nil && fresh(u) && u.String() != ""
fun newAttrs(a attrs.Attrs) bool = a != nil && a is *memattrs.Attrs && fresh(a) && fresh(*(a as *memattrs.Attrs)) && awritable(a) && forall k string :: !adom(a, k)

func WithUID(u) result
  props C02
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == u && apply(result, o).Attrs == o.Attrs && apply(result, o).DOTID == o.DOTID

func WithAttrs(a) result
  props C02
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).Attrs == a && apply(result, o).DOTID == o.DOTID

func WithDOTID(d) result
  props C02
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).Attrs == o.Attrs && apply(result, o).DOTID == d

func New(typ, opts) (result, err)
  props C02
  ensures err == nil && result != nil && fresh(result)
  ensures fold(opts).UID != nil ==> result.UID() == fold(opts).UID
  ensures fold(opts).UID == nil ==> newUID(result.UID())
  ensures fold(opts).Attrs != nil ==> result.Attrs() == fold(opts).Attrs
  ensures fold(opts).Attrs == nil ==> newAttrs(result.Attrs())
  ensures result.Type() == typ
  ensures result.dotid == if fold(opts).DOTID != "" then fold(opts).DOTID else result.UID().String()

func NewResource(typ, name, group, version, kind, namespaced, opts) (result, err)
  props C02
  ensures err == nil && result != nil && fresh(result)
  ensures fold(opts).UID != nil ==> result.UID() == fold(opts).UID
  ensures fold(opts).UID == nil ==> newUID(result.UID())
  ensures fold(opts).Attrs != nil ==> result.Attrs() == fold(opts).Attrs
  ensures fold(opts).Attrs == nil ==> newAttrs(result.Attrs())
  ensures result.Type() == typ && result.Name() == name && result.Group() == group && result.Version() == version && result.Kind() == kind && (result.Namespaced() <==> namespaced)
  ensures result.dotid == if fold(opts).DOTID != "" then fold(opts).DOTID else group + "/" + version + "/" + kind

func NewObject(typ, name, ns, res, opts) (result, err)
  props C02
  ensures err == nil && result != nil && fresh(result)
  ensures fold(opts).UID != nil ==> result.UID() == fold(opts).UID
  ensures fold(opts).UID == nil ==> newUID(result.UID())
  ensures fold(opts).Attrs != nil ==> result.Attrs() == fold(opts).Attrs
  ensures fold(opts).Attrs == nil ==> newAttrs(result.Attrs())
  ensures result.Type() == typ && result.Name() == name && result.Namespace() == ns && result.Resource() == res
  ensures fold(opts).DOTID != "" ==> result.dotid == fold(opts).DOTID
  ensures fold(opts).DOTID == "" && res == nil ==> result.dotid == result.UID().String()
  ensures fold(opts).DOTID == "" && res != nil ==> result.dotid == res.Group() + "/" + res.Version() + "/" + res.Kind() + "/" + ns + "/" + name

func (e Entity) DOTID() result
  props C02
  ensures result == e.dotid

func (e *Entity) SetDOTID(dotid) result
  props C02
  modifies Entity.dotid(e)
  ensures e.dotid == dotid

func (r Resource) DOTID() result
  props C02
  ensures result == r.dotid

func (r *Resource) SetDOTID(dotid) result
  props C02
  modifies Resource.dotid(r)
  ensures r.dotid == dotid

func (o Object) DOTID() result
  props C02
  ensures result == o.dotid

func (o *Object) SetDOTID(dotid) result
  props C02
  modifies Object.dotid(o)
  ensures o.dotid == dotid
