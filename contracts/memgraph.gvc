# The graph interface the store is built on.
package graph/memory
import graph graph
import gonum gonum.org/v1/gonum/graph
import memory graph/memory
import store store
import uuid uuid

reads Edge Edges SubGraph

# the node stored under a UID, the link between two UIDs (held in both orientations by an undirected
# graph), and whether an ID can be used by the node with a UID
deepghost gnode(memory.Graph, string) graph.Node
deepghost gedge(memory.Graph, string, string) gonum.WeightedEdge
deepghost gfree(memory.Graph, int64, string) bool
ufun gdir(g memory.Graph) bool

# the same links, but for the node object at one of the ends
fun kept(x any, e any) bool = isEdge(x) && sameLink(x, e)

iface Graph
method NewNode(ctx, ent, opts) (result, err)
  flag event NewNode
  props C10, C07
  requires ent != nil
  ensures err == nil ==> result is *memory.Node && isNode(result) && nuid(result) == ent.UID().String() && gfree(self, nid(result), nuid(result))
  ensures err == nil && gnode(self, ent.UID().String()) != nil ==> result == gnode(self, ent.UID().String())
  ensures err == nil && gnode(self, ent.UID().String()) == nil ==> fresh(result) && (result as *memory.Node).Entity == ent
  ensures err == nil && gnode(self, ent.UID().String()) == nil && fold(opts).Attrs != nil ==> (result as *memory.Node).attrs == fold(opts).Attrs
  ensures err == nil && gnode(self, ent.UID().String()) == nil && fold(opts).Attrs == nil ==> newAttrs((result as *memory.Node).attrs)
method AddNode(ctx, n, opts) err
  flag event AddNode
  props C10, C07
  requires n is *memory.Node && isNode(n)
  modifies ghost gnode(self), ghost gedge(self), ghost gfree(self)
  ensures err != nil ==> (forall k string :: gnode(self, k) == old(gnode(self, k))) && (forall a, b string :: gedge(self, a, b) == old(gedge(self, a, b)))
  ensures err == nil ==> gnode(self, nuid(n)) == n && forall k string :: k != nuid(n) ==> gnode(self, k) == old(gnode(self, k))
  ensures err == nil ==> fold(opts).Upsert || old(gnode(self, nuid(n))) == nil
  ensures err == nil ==> forall a, b string :: (gedge(self, a, b) != nil <==> old(gedge(self, a, b)) != nil) && (a != nuid(n) && b != nuid(n) ==> gedge(self, a, b) == old(gedge(self, a, b))) && (gedge(self, a, b) != nil && (a == nuid(n) || b == nuid(n)) ==> kept(gedge(self, a, b), old(gedge(self, a, b))))
  ensures iscause(err, graph.ErrDuplicateNode) ==> old(gnode(self, nuid(n))) != nil && !fold(opts).Upsert || !old(gfree(self, nid(n), nuid(n)))
  ensures old(gnode(self, nuid(n))) != nil && !fold(opts).Upsert ==> iscause(err, graph.ErrDuplicateNode)
method Node(ctx, uid) (result, err)
  flag event Node
  props C10, C07
  requires uid != nil
  ensures iscause(err, graph.ErrNodeNotFound) <==> gnode(self, uid.String()) == nil
  ensures err == nil ==> result == gnode(self, uid.String()) && result is *memory.Node && isNode(result) && nuid(result) == uid.String()
method RemoveNode(ctx, uid, opts) err
  flag event RemoveNode
  props C10, C07
  requires uid != nil
  modifies ghost gnode(self), ghost gedge(self), ghost gfree(self)
  ensures err != nil ==> (forall k string :: gnode(self, k) == old(gnode(self, k))) && (forall a, b string :: gedge(self, a, b) == old(gedge(self, a, b)))
  ensures err == nil ==> forall k string :: gnode(self, k) == if k == uid.String() then nil else old(gnode(self, k))
  ensures err == nil ==> forall a, b string :: gedge(self, a, b) == if a == uid.String() || b == uid.String() then nil else old(gedge(self, a, b))
method Link(ctx, from, to, opts) (result, err)
  flag event Link
  props C10, C08
  requires from != nil && to != nil
  modifies ghost gedge(self)
  ensures iscause(err, graph.ErrNodeNotFound) <==> gnode(self, from.String()) == nil || gnode(self, to.String()) == nil
  ensures err != nil ==> forall a, b string :: gedge(self, a, b) == old(gedge(self, a, b))
  ensures err == nil ==> gedge(self, from.String(), to.String()) != nil
  ensures err == nil && old(gedge(self, from.String(), to.String())) != nil ==> gedge(self, from.String(), to.String()) == old(gedge(self, from.String(), to.String()))
  ensures err == nil && old(gedge(self, from.String(), to.String())) == nil ==> isEdge(gedge(self, from.String(), to.String())) && ends(gedge(self, from.String(), to.String()), gnode(self, from.String()), gnode(self, to.String()))
  ensures err == nil && old(gedge(self, from.String(), to.String())) == nil && fold(opts).Attrs != nil ==> (gedge(self, from.String(), to.String()) as *memory.Edge).attrs == fold(opts).Attrs
  ensures err == nil && old(gedge(self, from.String(), to.String())) == nil && fold(opts).Attrs == nil ==> newAttrs((gedge(self, from.String(), to.String()) as *memory.Edge).attrs)
  ensures err == nil ==> forall a, b string :: (a != from.String() || b != to.String()) && (gdir(self) || a != to.String() || b != from.String()) ==> gedge(self, a, b) == old(gedge(self, a, b))
  ensures err == nil && !gdir(self) ==> gedge(self, to.String(), from.String()) != nil
method Unlink(ctx, from, to, opts) err
  flag event Unlink
  props C10, C08
  requires from != nil && to != nil
  modifies ghost gedge(self)
  ensures err != nil ==> forall a, b string :: gedge(self, a, b) == old(gedge(self, a, b))
  ensures err == nil ==> forall a, b string :: gedge(self, a, b) == if (a == from.String() && b == to.String()) || (!gdir(self) && a == to.String() && b == from.String()) then nil else old(gedge(self, a, b))

# the two kinds of graph of the package implement it
impl *WDG memory.Graph
rep *WDG w
repfun gnode(k string) graph.Node = if k in w.WG.nodes then w.WG.nodes[k] else nil
repfun gedge(a string, b string) gonum.WeightedEdge = if (a in w.WG.nodes) && (b in w.WG.nodes) then ge(w.WG, gid(w.WG, a), gid(w.WG, b)) else nil
repfun gfree(id int64, k string) bool = gn(w.WG, id) == nil || (gn(w.WG, id) as *memory.Node).UID().String() == k
repfun gdir() bool = bdir(w.WG.WeightedGraphBuilder)
repreq w.WG != nil
repmod map(w.WG.nodes), ghost bnode(w.WG.WeightedGraphBuilder), ghost bedge(w.WG.WeightedGraphBuilder)
impl *WUG memory.Graph
rep *WUG w
repfun gnode(k string) graph.Node = if k in w.WG.nodes then w.WG.nodes[k] else nil
repfun gedge(a string, b string) gonum.WeightedEdge = if (a in w.WG.nodes) && (b in w.WG.nodes) then ge(w.WG, gid(w.WG, a), gid(w.WG, b)) else nil
repfun gfree(id int64, k string) bool = gn(w.WG, id) == nil || (gn(w.WG, id) as *memory.Node).UID().String() == k
repfun gdir() bool = bdir(w.WG.WeightedGraphBuilder)
repreq w.WG != nil
repmod map(w.WG.nodes), ghost bnode(w.WG.WeightedGraphBuilder), ghost bedge(w.WG.WeightedGraphBuilder)
