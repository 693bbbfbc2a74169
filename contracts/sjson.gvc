# The JSON marshaler (C04).
package space/marshal/json
import json encoding/json
import space space
import marshal space/marshal
import attrs attrs
import uuid uuid

func NewMarshaler(opts) (result, err)
  props C04
  ensures err == nil && result != nil

fun isAny(x any) bool = (x is space.Resource) || (x is space.Object) || (x is space.Entity) || (x is space.Link)

fun encResource(v any, e space.Resource) bool = ((v is *marshal.Resource) || (v is marshal.Resource)) && resourceRec(if v is *marshal.Resource then *(v as *marshal.Resource) else v as marshal.Resource, e)
fun encObject(v any, e space.Object) bool = ((v is *marshal.Object) || (v is marshal.Object)) && objectRec(if v is *marshal.Object then *(v as *marshal.Object) else v as marshal.Object, e)
fun encEntity(v any, e space.Entity) bool = ((v is *marshal.Entity) || (v is marshal.Entity)) && entityRec(if v is *marshal.Entity then *(v as *marshal.Entity) else v as marshal.Entity, e)
fun encLink(v any, e space.Link) bool = ((v is *marshal.Link) || (v is marshal.Link)) && linkRec(if v is *marshal.Link then *(v as *marshal.Link) else v as marshal.Link, e)

func (m *Marshaler) Marshal(x) (result, err)
  props C04
  requires (x is space.Resource) ==> (x as space.Resource).Attrs() != nil
  requires (x is space.Object) ==> (x as space.Object).Attrs() != nil && ((x as space.Object).Resource() != nil ==> (x as space.Object).Resource().Attrs() != nil)
  requires (x is space.Entity) ==> (x as space.Entity).Attrs() != nil
  requires (x is space.Link) ==> (x as space.Link).Attrs() != nil
  oncall JSONMarshal: isAny(x)
  oncall JSONMarshal: (x is space.Resource) ==> encResource($v, x as space.Resource)
  oncall JSONMarshal: !(x is space.Resource) && (x is space.Object) ==> encObject($v, x as space.Object)
  oncall JSONMarshal: !(x is space.Resource) && !(x is space.Object) && (x is space.Entity) ==> encEntity($v, x as space.Entity)
  oncall JSONMarshal: !(x is space.Resource) && !(x is space.Object) && !(x is space.Entity) && (x is space.Link) ==> encLink($v, x as space.Link)
  ensures calls("JSONMarshal") == 1 ==> result == res("JSONMarshal", 0, 0) && err == res("JSONMarshal", 0, 1)
  ensures calls("JSONMarshal") <= 1
  ensures !isAny(x) ==> err == marshal.ErrUnsuportedType
  ensures calls("JSONMarshal") == 0 ==> result == nil && err != nil
  ensures calls("JSONMarshal") == 0 && (x is space.Resource) ==> afail((x as space.Resource).Attrs())
  ensures calls("JSONMarshal") == 0 && !(x is space.Resource) && (x is space.Object) ==> afail((x as space.Object).Attrs()) || ((x as space.Object).Resource() != nil && afail((x as space.Object).Resource().Attrs()))
  ensures calls("JSONMarshal") == 0 && !(x is space.Resource) && !(x is space.Object) && (x is space.Entity) ==> afail((x as space.Entity).Attrs())
  ensures calls("JSONMarshal") == 0 && !(x is space.Resource) && !(x is space.Object) && !(x is space.Entity) && (x is space.Link) ==> afail((x as space.Link).Attrs())

fun isTarget(x any) bool = (x is *space.Resource) || (x is *space.Object) || (x is *space.Entity) || (x is *space.Link)

func (m *Marshaler) Unmarshal(b, x) result
  props C04
  requires ((x is *space.Resource) ==> (x as *space.Resource) != nil) && ((x is *space.Object) ==> (x as *space.Object) != nil) && ((x is *space.Entity) ==> (x as *space.Entity) != nil) && ((x is *space.Link) ==> (x as *space.Link) != nil)
  modifies cell(if x is *space.Resource then x as *space.Resource else nil), cell(if x is *space.Object then x as *space.Object else nil), cell(if x is *space.Entity then x as *space.Entity else nil), cell(if x is *space.Link then x as *space.Link else nil)
  ensures !isTarget(x) ==> result == marshal.ErrUnsuportedType
  ensures isTarget(x) ==> calls("JSONUnmarshal") == 1
  ensures calls("JSONUnmarshal") == 1 ==> result == res("JSONUnmarshal", 0, 0) && arg("JSONUnmarshal", 0, 0) == b
  ensures result != nil && (x is *space.Resource) ==> *(x as *space.Resource) == old(*(x as *space.Resource))
  ensures result != nil && (x is *space.Object) ==> *(x as *space.Object) == old(*(x as *space.Object))
  ensures result != nil && (x is *space.Entity) ==> *(x as *space.Entity) == old(*(x as *space.Entity))
  ensures result != nil && (x is *space.Link) ==> *(x as *space.Link) == old(*(x as *space.Link))
  ensures result == nil && (x is *space.Resource) ==> *(x as *space.Resource) != nil && sresource(bytes(b), "", *(x as *space.Resource))
  ensures result == nil && (x is *space.Object) ==> *(x as *space.Object) != nil && sobject(bytes(b), *(x as *space.Object))
  ensures result == nil && (x is *space.Entity) ==> *(x as *space.Entity) != nil && sentity(bytes(b), "", *(x as *space.Entity))
  ensures result == nil && (x is *space.Link) ==> *(x as *space.Link) != nil && slink(bytes(b), *(x as *space.Link))
