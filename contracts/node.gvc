# Graph nodes and edges (C18).
package graph/memory
import graph graph
import attrs attrs
import memattrs attrs/memory
import memuid uuid/memory
import uuid uuid
import entity space/entity
import encoding gonum.org/v1/gonum/graph/encoding
import gonum gonum.org/v1/gonum/graph
import memory graph/memory

pure ID Weight
immutable Node.Entity Node.id Node.attrs
immutable Edge.uid Edge.attrs Edge.from Edge.to Edge.weight

# the DOT ID an object reports at the moment
ghost gdotid(any) string
fun dotidOf(x any) string = if x is *entity.Entity then (x as *entity.Entity).dotid else if x is *entity.Resource then (x as *entity.Resource).dotid else if x is *entity.Object then (x as *entity.Object).dotid else if x is *memory.Node then (x as *memory.Node).dotid else if x is *memory.Edge then (x as *memory.Edge).dotid else gdotid(x)

impl *entity.Entity graph.DOTEntity
impl *entity.Resource graph.DOTEntity
impl *entity.Object graph.DOTEntity
impl *Node graph.DOTEntity
impl *Node graph.DOTer
impl *Edge graph.DOTer

iface graph.DOTEntity
method DOTID() result
  props C18
  ensures result == dotidOf(self)
iface graph.DOTer
method DOTID() result
  props C18
  ensures result == dotidOf(self)

func NewNode(id, e, opts) (result, err)
  props C18
  requires e != nil
  ensures err == nil && result != nil && fresh(result)
  ensures result.ID() == id && result.Entity == e && result.UID() == e.UID()
  ensures fold(opts).Attrs != nil ==> result.Attrs() == fold(opts).Attrs
  ensures fold(opts).Attrs == nil ==> newAttrs(result.Attrs())
  ensures fold(opts).DOTID != "" ==> result.dotid == fold(opts).DOTID
  ensures fold(opts).DOTID == "" && (e is graph.DOTEntity || e is graph.DOTer) ==> result.dotid == dotidOf(e)
  ensures fold(opts).DOTID == "" && !(e is graph.DOTEntity) && !(e is graph.DOTer) ==> result.dotid == e.UID().String()

func (n Node) DOTID() result
  props C18
  ensures result == n.dotid

func (n *Node) SetDOTID(id) result
  props C18
  modifies Node.dotid(n)
  ensures n.dotid == id

func (n Node) Attributes() result
  props C18
  requires n.attrs != nil
  loopinv forall i int :: 0 <= i < len($dst) ==> adom(n.attrs, $dst[i].Key) && $dst[i].Value == aval(n.attrs, $dst[i].Key)
  ensures renders(result, n.Attrs()) || (afail(n.Attrs()) && len(result) == 0)

func NewEdge(from, to, opts) (result, err)
  props C18
  ensures err == nil && result != nil && fresh(result)
  ensures result.from == from && result.to == to && result.From() == box(*Node, from) && result.To() == box(*Node, to)
  ensures result.Weight() == fold(opts).Weight
  ensures fold(opts).Attrs != nil ==> result.Attrs() == fold(opts).Attrs
  ensures fold(opts).Attrs == nil ==> newAttrs(result.Attrs())
  ensures fold(opts).DOTID != "" ==> result.dotid == fold(opts).DOTID && fresh(result.UID()) && result.UID().String() == fold(opts).DOTID
  ensures fold(opts).DOTID == "" && fold(opts).UID != nil ==> result.UID() == fold(opts).UID
  ensures fold(opts).DOTID == "" && fold(opts).UID == nil ==> newUID(result.UID())
  ensures fold(opts).DOTID == "" ==> result.dotid == result.UID().String()

func (e *Edge) ReversedEdge() result
  props C18
  ensures result is *Edge && (result as *Edge) != nil && fresh(result)
  ensures result.From() == e.To() && result.To() == e.From()
  ensures (result as *Edge).UID() == e.UID() && (result as *Edge).Attrs() == e.Attrs() && (result as *Edge).Weight() == e.Weight() && (result as *Edge).dotid == e.dotid

func (e Edge) FromNode() (result, err)
  props C18
  ensures err == nil && result == box(*Node, e.from)

func (e Edge) ToNode() (result, err)
  props C18
  ensures err == nil && result == box(*Node, e.to)

func (e Edge) DOTID() result
  props C18
  ensures result == e.dotid

func (e *Edge) SetDOTID(id) result
  props C18
  modifies Edge.dotid(e)
  ensures e.dotid == id

func (e Edge) Attributes() result
  props C18
  requires e.attrs != nil
  loopinv forall i int :: 0 <= i < len($dst) ==> adom(e.attrs, $dst[i].Key) && $dst[i].Value == aval(e.attrs, $dst[i].Key)
  ensures renders(result, e.Attrs()) || (afail(e.Attrs()) && len(result) == 0)
