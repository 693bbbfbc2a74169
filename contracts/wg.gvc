# Weighted graphs (C07, C08, C09, C18).
package graph/memory
import graph graph
import attrs attrs
import memattrs attrs/memory
import uuid uuid
import gonum gonum.org/v1/gonum/graph
import simple gonum.org/v1/gonum/graph/simple
import memory graph/memory
import zz internal/zzmodel

reads NewNode Node Nodes From WeightedEdge WeightedEdges Edge HasEdgeBetween Weight Next Len
immutable WG.mu WG.uid WG.dotid WG.dot WG.nodes WG.WeightedGraphBuilder WDG.WG WUG.WG
guard WG.nodes by mu deep
guard WG.WeightedGraphBuilder by mu deep

# what a graph builder holds: nodes by ID, edges by the IDs of their ends (an edge of an undirected
# graph is held in both orientations)
deepghost bnode(memory.WeightedGraphBuilder, int64) gonum.Node
deepghost bedge(memory.WeightedGraphBuilder, int64, int64) gonum.WeightedEdge
ufun bdir(b memory.WeightedGraphBuilder) bool

fun isNode(x any) bool = x is *memory.Node && (x as *memory.Node) != nil && (x as *memory.Node).Entity != nil
fun isEdge(x any) bool = x is *memory.Edge && (x as *memory.Edge) != nil && (x as *memory.Edge).from != nil && (x as *memory.Edge).to != nil && (x as *memory.Edge).attrs != nil
fun ends(x any, a gonum.Node, b gonum.Node) bool = box(*memory.Node, (x as *memory.Edge).from) == a && box(*memory.Node, (x as *memory.Edge).to) == b
# the same link seen the other way round
fun reversed(x any, e any) bool = isEdge(x) && fresh(x) && (x as *memory.Edge).from == (e as *memory.Edge).to && (x as *memory.Edge).to == (e as *memory.Edge).from && sameLink(x, e)
fun sameLink(x any, e any) bool = (x as *memory.Edge).uid == (e as *memory.Edge).uid && (x as *memory.Edge).attrs == (e as *memory.Edge).attrs && (x as *memory.Edge).weight == (e as *memory.Edge).weight

iface WeightedGraphBuilder
method NewNode() result
  ensures result != nil && bnode(self, result.ID()) == nil
method AddNode(n) result
  requires n != nil && bnode(self, n.ID()) == nil
  modifies ghost bnode(self)
  ensures bnode(self, n.ID()) == n
  ensures forall i int64 :: i != n.ID() ==> bnode(self, i) == old(bnode(self, i))
method RemoveNode(id) result
  modifies ghost bnode(self), ghost bedge(self)
  ensures forall i int64 :: bnode(self, i) == if i == id then nil else old(bnode(self, i))
  ensures forall i, j int64 :: bedge(self, i, j) == if i == id || j == id then nil else old(bedge(self, i, j))
method Node(id) result
  ensures result == bnode(self, id)
method Nodes() result
  flag event NodesIt
  flag lazy bnode
  ensures result != nil && fresh(result) && ipos(result) == 0 && 0 <= nlen(result)
  ensures forall p int :: 0 <= p < nlen(result) ==> nat(result, p) != nil && bnode(self, nat(result, p).ID()) == nat(result, p) && npos(result, nat(result, p).ID()) == p
  ensures forall i int64 :: bnode(self, i) != nil ==> 0 <= npos(result, i) && npos(result, i) < nlen(result) && nat(result, npos(result, i)) == bnode(self, i)
method From(id) result
  flag event From
  flag lazy bnode,bedge
  ensures result != nil && fresh(result) && ipos(result) == 0 && 0 <= nlen(result)
  ensures forall p int :: 0 <= p < nlen(result) ==> nat(result, p) != nil && bnode(self, nat(result, p).ID()) == nat(result, p) && bedge(self, id, nat(result, p).ID()) != nil && npos(result, nat(result, p).ID()) == p
  ensures forall i int64 :: bedge(self, id, i) != nil ==> 0 <= npos(result, i) && npos(result, i) < nlen(result) && nat(result, npos(result, i)) == bnode(self, i)
method WeightedEdge(u, v) result
  ensures bedge(self, u, v) == nil ==> result == nil
  ensures bedge(self, u, v) != nil ==> result != nil && (result == bedge(self, u, v) || !bdir(self) && bedge(self, u, v).From().ID() != u && (bedge(self, u, v) is *memory.Edge ==> reversed(result, bedge(self, u, v))))
  ensures bedge(self, u, v) != nil && bedge(self, u, v).From().ID() == u ==> result == bedge(self, u, v)
  ensures bedge(self, u, v) != nil && bedge(self, u, v).From().ID() != u && !bdir(self) && bedge(self, u, v) is *memory.Edge ==> reversed(result, bedge(self, u, v))
method Edge(u, v) result
  ensures bedge(self, u, v) == nil ==> result == nil
  ensures bedge(self, u, v) != nil ==> result != nil && (result == bedge(self, u, v) || !bdir(self) && bedge(self, u, v).From().ID() != u && (bedge(self, u, v) is *memory.Edge ==> reversed(result, bedge(self, u, v))))
  ensures bedge(self, u, v) != nil && bedge(self, u, v).From().ID() == u ==> result == bedge(self, u, v)
method HasEdgeBetween(u, v) result
  ensures result <==> bedge(self, u, v) != nil || bedge(self, v, u) != nil
method Weight(u, v) (w, ok)
  ensures u != v && bedge(self, u, v) == nil ==> !ok
  ensures u != v && bedge(self, u, v) != nil ==> ok && w == bedge(self, u, v).Weight()
method WeightedEdges() result
  flag event WeightedEdges
  ensures result != nil && fresh(result) && ipos(result) == 0 && 0 <= elen(result)
  ensures forall p int :: 0 <= p < elen(result) ==> eat(result, p) != nil && bedge(self, eat(result, p).From().ID(), eat(result, p).To().ID()) == eat(result, p) && epos(result, eat(result, p).From().ID(), eat(result, p).To().ID()) == p
  ensures forall i, j int64 :: bedge(self, i, j) != nil ==> 0 <= epos(result, i, j) && epos(result, i, j) < elen(result) && eat(result, epos(result, i, j)) == bedge(self, i, j)
method SetWeightedEdge(e) result
  requires e != nil && e.From().ID() != e.To().ID()
  modifies ghost bnode(self), ghost bedge(self)
  ensures bnode(self, e.From().ID()) == e.From() && bnode(self, e.To().ID()) == e.To()
  ensures forall i int64 :: i != e.From().ID() && i != e.To().ID() ==> bnode(self, i) == old(bnode(self, i))
  ensures forall i, j int64 :: bedge(self, i, j) == if (i == e.From().ID() && j == e.To().ID()) || (!bdir(self) && i == e.To().ID() && j == e.From().ID()) then e else old(bedge(self, i, j))
method RemoveEdge(u, v) result
  modifies ghost bedge(self)
  ensures forall i, j int64 :: bedge(self, i, j) == if (i == u && j == v) || (!bdir(self) && i == v && j == u) then nil else old(bedge(self, i, j))

fun gn(g *memory.WG, i int64) gonum.Node = bnode(g.WeightedGraphBuilder, i)
fun ge(g *memory.WG, i int64, j int64) gonum.WeightedEdge = bedge(g.WeightedGraphBuilder, i, j)
fun gid(g *memory.WG, k string) int64 = (g.nodes[k] as *memory.Node).ID()

monitor WG g
  moninv g.mu != nil && g.nodes != nil && g.WeightedGraphBuilder != nil
  moninv [C07] forall k string :: k in g.nodes ==> isNode(g.nodes[k]) && g.nodes[k].UID().String() == k && gn(g, gid(g, k)) == g.nodes[k]
  moninv [C07] forall i int64 :: gn(g, i) != nil ==> isNode(gn(g, i)) && gn(g, i).ID() == i && ((gn(g, i) as *memory.Node).UID().String() in g.nodes) && g.nodes[(gn(g, i) as *memory.Node).UID().String()] == gn(g, i)
  moninv [C08] forall i, j int64 :: ge(g, i, j) != nil ==> i != j && gn(g, i) != nil && gn(g, j) != nil && isEdge(ge(g, i, j))
  moninv [C08] forall i, j int64 :: ge(g, i, j) != nil ==> ends(ge(g, i, j), gn(g, i), gn(g, j)) || (!bdir(g.WeightedGraphBuilder) && ends(ge(g, i, j), gn(g, j), gn(g, i)))
  moninv [C08] !bdir(g.WeightedGraphBuilder) ==> forall i, j int64 :: ge(g, i, j) != nil ==> ge(g, j, i) == ge(g, i, j)

fun sameNodes(g *memory.WG) bool = (forall k string :: (k in g.nodes <==> old(k in g.nodes)) && g.nodes[k] == old(g.nodes[k])) && (forall i int64 :: gn(g, i) == old(gn(g, i)))
fun sameEdges(g *memory.WG) bool = forall i, j int64 :: ge(g, i, j) == old(ge(g, i, j))

func NewWG(wg, opts) (result, err)
  props C18, C07
  requires wg != nil
  requires forall i int64 :: bnode(wg, i) == nil
  requires forall i, j int64 :: bedge(wg, i, j) == nil
  ensures err == nil && result != nil && fresh(result) && result.WeightedGraphBuilder == wg && fresh(result.nodes)
  ensures [C07] (forall k string :: !(k in result.nodes)) && (forall i int64 :: gn(result, i) == nil)
  ensures [C08] forall i, j int64 :: ge(result, i, j) == nil
  ensures [C18] fold(opts).UID != nil ==> result.uid == fold(opts).UID
  ensures [C18] fold(opts).UID == nil ==> newUID(result.uid)
  ensures [C18] result.dotid == if fold(opts).DOTID != "" then fold(opts).DOTID else result.uid.String()
  ensures [C18] result.dot == fold(opts).DOTOptions

func NewWDG(opts) (result, err)
  props C18, C07, C08
  flag event NewWDG
  ensures err == nil && result != nil && fresh(result) && result.WG != nil && fresh(result.WG) && bdir(result.WG.WeightedGraphBuilder) && fresh(result.WG.WeightedGraphBuilder) && fresh(result.WG.nodes)
  ensures [C07] (forall k string :: !(k in result.WG.nodes)) && (forall i int64 :: gn(result.WG, i) == nil)
  ensures [C08] forall i, j int64 :: ge(result.WG, i, j) == nil
  ensures [C18] fold(opts).UID != nil ==> result.WG.uid == fold(opts).UID
  ensures [C18] fold(opts).UID == nil ==> newUID(result.WG.uid)
  ensures [C18] result.WG.dotid == if fold(opts).DOTID != "" then fold(opts).DOTID else result.WG.uid.String()
  ensures [C18] result.WG.dot == fold(opts).DOTOptions

func NewWUG(opts) (result, err)
  props C18, C07, C08
  ensures err == nil && result != nil && fresh(result) && result.WG != nil && fresh(result.WG) && !bdir(result.WG.WeightedGraphBuilder) && fresh(result.WG.WeightedGraphBuilder) && fresh(result.WG.nodes)
  ensures [C07] (forall k string :: !(k in result.WG.nodes)) && (forall i int64 :: gn(result.WG, i) == nil)
  ensures [C08] forall i, j int64 :: ge(result.WG, i, j) == nil
  ensures [C18] fold(opts).UID != nil ==> result.WG.uid == fold(opts).UID
  ensures [C18] fold(opts).UID == nil ==> newUID(result.WG.uid)
  ensures [C18] result.WG.dotid == if fold(opts).DOTID != "" then fold(opts).DOTID else result.WG.uid.String()
  ensures [C18] result.WG.dot == fold(opts).DOTOptions

func (g WG) UID() result
  props C18
  ensures result == g.uid

func (g WG) DOTID() result
  props C18
  ensures result == g.dotid

func (g *WG) DOTAttributers() (a, b, c)
  props C18
  ensures a == g.dot.GraphAttrs && b == g.dot.NodeAttrs && c == g.dot.EdgeAttrs

func (g *WG) NewNode(ctx, ent, opts) (result, err)
  props C07
  flag locked
  requires ent != nil
  ensures err == nil
  ensures old(ent.UID().String() in g.nodes) ==> result == old(g.nodes[ent.UID().String()])
  ensures !old(ent.UID().String() in g.nodes) ==> isNode(result) && fresh(result) && (result as *memory.Node).Entity == ent && released(gn(g, (result as *memory.Node).ID())) == nil
  ensures !old(ent.UID().String() in g.nodes) && fold(opts).Attrs != nil ==> (result as *memory.Node).attrs == fold(opts).Attrs
  ensures !old(ent.UID().String() in g.nodes) && fold(opts).Attrs == nil ==> newAttrs((result as *memory.Node).attrs)

fun taken(g *memory.WG, n *memory.Node) bool = gn(g, n.ID()) != nil && (gn(g, n.ID()) as *memory.Node).UID().String() != n.UID().String()
fun nuid(n graph.Node) string = (n as *memory.Node).UID().String()
fun nid(n graph.Node) int64 = (n as *memory.Node).ID()

# x is the link e with its end on replaced by n
fun moved(x any, e any, on *memory.Node, n *memory.Node) bool = isEdge(x) && sameLink(x, e) && (x as *memory.Edge).dotid == (e as *memory.Edge).dotid && (x as *memory.Edge).from == (if (e as *memory.Edge).from == on then n else (e as *memory.Edge).from) && (x as *memory.Edge).to == (if (e as *memory.Edge).to == on then n else (e as *memory.Edge).to)
fun refused(g *memory.WG, n graph.Node, up bool) bool = (nuid(n) in g.nodes) && !up || taken(g, n as *memory.Node)
fun prev(g *memory.WG, n graph.Node) *memory.Node = g.nodes[nuid(n)] as *memory.Node

func (g *WG) AddNode(ctx, n, opts) err
  props C07, C08
  flag locked
  requires n is *memory.Node ==> isNode(n)
  modifies map(g.nodes), ghost bnode(g.WeightedGraphBuilder), ghost bedge(g.WeightedGraphBuilder)
  ensures [C07] !(n is *memory.Node) ==> err == graph.ErrInvalidNode && sameNodes(g)
  ensures [C07] n is *memory.Node && old(refused(g, n, fold(opts).Upsert)) ==> err == graph.ErrDuplicateNode && sameNodes(g)
  ensures [C07] n is *memory.Node && !old(refused(g, n, fold(opts).Upsert)) ==> err == nil && (nuid(n) in g.nodes) && g.nodes[nuid(n)] == n && gn(g, nid(n)) == n
  ensures [C07] n is *memory.Node && !old(refused(g, n, fold(opts).Upsert)) ==> forall k string :: k != nuid(n) ==> (k in g.nodes <==> old(k in g.nodes)) && g.nodes[k] == old(g.nodes[k])
  ensures [C07] n is *memory.Node && !old(refused(g, n, fold(opts).Upsert)) ==> forall i int64 :: i != nid(n) ==> gn(g, i) == if old(nuid(n) in g.nodes) && i == old(prev(g, n).ID()) then nil else old(gn(g, i))
  ensures [C08] !(n is *memory.Node) || old(refused(g, n, fold(opts).Upsert)) || !old(nuid(n) in g.nodes) ==> sameEdges(g)
  ensures [C08] n is *memory.Node && !old(refused(g, n, fold(opts).Upsert)) && old(nuid(n) in g.nodes) ==> forall i, j int64 :: i != nid(n) && j != nid(n) ==> ge(g, i, j) == if i == old(prev(g, n).ID()) || j == old(prev(g, n).ID()) then nil else old(ge(g, i, j))
  ensures [C08] n is *memory.Node && !old(refused(g, n, fold(opts).Upsert)) && old(nuid(n) in g.nodes) ==> forall j int64 :: (ge(g, nid(n), j) != nil <==> old(ge(g, prev(g, n).ID(), j)) != nil) && (ge(g, nid(n), j) != nil ==> moved(ge(g, nid(n), j), old(ge(g, prev(g, n).ID(), j)), old(prev(g, n)), n as *memory.Node))
  ensures [C08] n is *memory.Node && !old(refused(g, n, fold(opts).Upsert)) && old(nuid(n) in g.nodes) ==> forall j int64 :: (ge(g, j, nid(n)) != nil <==> old(ge(g, j, prev(g, n).ID())) != nil) && (ge(g, j, nid(n)) != nil ==> moved(ge(g, j, nid(n)), old(ge(g, j, prev(g, n).ID())), old(prev(g, n)), n as *memory.Node))
  loopinv forall i int64 :: gn(g, i) == entry(gn(g, i))
  loopinv forall i, j int64 :: i != nid(n) && j != nid(n) ==> ge(g, i, j) == entry(ge(g, i, j))
  loopinv forall j int64 :: ge(g, nid(n), j) != nil ==> old(ge(g, prev(g, n).ID(), j)) != nil && epos(res("WeightedEdges", 0, 0), old(prev(g, n).ID()), j) < $i && moved(ge(g, nid(n), j), old(ge(g, prev(g, n).ID(), j)), old(prev(g, n)), n as *memory.Node)
  loopinv forall j int64 :: old(ge(g, prev(g, n).ID(), j)) != nil && epos(res("WeightedEdges", 0, 0), old(prev(g, n).ID()), j) < $i ==> ge(g, nid(n), j) != nil
  loopinv forall j int64 :: ge(g, j, nid(n)) != nil ==> old(ge(g, j, prev(g, n).ID())) != nil && epos(res("WeightedEdges", 0, 0), j, old(prev(g, n).ID())) < $i && moved(ge(g, j, nid(n)), old(ge(g, j, prev(g, n).ID())), old(prev(g, n)), n as *memory.Node)
  loopinv forall j int64 :: old(ge(g, j, prev(g, n).ID())) != nil && epos(res("WeightedEdges", 0, 0), j, old(prev(g, n).ID())) < $i ==> ge(g, j, nid(n)) != nil
  loopinv !bdir(g.WeightedGraphBuilder) ==> forall j int64 :: (ge(g, nid(n), j) != nil ==> ge(g, j, nid(n)) == ge(g, nid(n), j)) && (ge(g, j, nid(n)) != nil ==> ge(g, nid(n), j) == ge(g, j, nid(n)))

func (g *WG) Node(ctx, uid) (result, err)
  props C07
  flag locked
  requires uid != nil
  ensures uid.String() in g.nodes ==> err == nil && result == g.nodes[uid.String()]
  ensures !(uid.String() in g.nodes) ==> err == graph.ErrNodeNotFound && result == nil

func (g *WG) Nodes(ctx) (result, err)
  props C07
  flag locked
  ensures err == nil
  ensures forall i int :: 0 <= i < len(result) ==> isNode(result[i]) && (nuid(result[i]) in g.nodes) && g.nodes[nuid(result[i])] == result[i]
  ensures forall k string :: k in g.nodes ==> exists i int :: 0 <= i < len(result) && result[i] == g.nodes[k]
  ensures forall i, j int :: 0 <= i < j < len(result) ==> nuid(result[i]) != nuid(result[j])
  # where it reads the iterator itself
  loopinv ipos(res("NodesIt", -1, 0)) == $i && $i <= nlen(res("NodesIt", -1, 0))
  loopinv forall q int :: 0 <= q < $i ==> $s[q] == nat(res("NodesIt", -1, 0), q)
  loopinv forall q int :: 0 <= q < $i ==> $dst[q] == nat(res("NodesIt", -1, 0), q)

func (g *WG) RemoveNode(ctx, uid, opts) err
  props C07
  flag locked
  requires uid != nil
  modifies map(g.nodes), ghost bnode(g.WeightedGraphBuilder), ghost bedge(g.WeightedGraphBuilder)
  ensures err == nil
  ensures !old(uid.String() in g.nodes) ==> sameNodes(g) && sameEdges(g)
  ensures !(uid.String() in g.nodes)
  ensures forall k string :: k != uid.String() ==> (k in g.nodes <==> old(k in g.nodes)) && g.nodes[k] == old(g.nodes[k])
  ensures old(uid.String() in g.nodes) ==> forall i int64 :: gn(g, i) == if i == old(gid(g, uid.String())) then nil else old(gn(g, i))
  ensures old(uid.String() in g.nodes) ==> forall i, j int64 :: ge(g, i, j) == if i == old(gid(g, uid.String())) || j == old(gid(g, uid.String())) then nil else old(ge(g, i, j))

# what is returned for the link e when it is asked for from a
fun oriented(x any, e any, a gonum.Node) bool = if box(*memory.Node, (e as *memory.Edge).from) == a then x == e else reversed(x, e)
fun both(g *memory.WG, f uuid.UID, t uuid.UID) bool = (f.String() in g.nodes) && (t.String() in g.nodes)
fun ie(g *memory.WG, f uuid.UID, t uuid.UID) gonum.WeightedEdge = ge(g, gid(g, f.String()), gid(g, t.String()))

func (g *WG) Link(ctx, from, to, opts) (result, err)
  props C08
  flag locked
  requires from != nil && to != nil
  modifies ghost bnode(g.WeightedGraphBuilder), ghost bedge(g.WeightedGraphBuilder)
  ensures sameNodes(g)
  ensures !both(g, from, to) ==> err == graph.ErrNodeNotFound && result == nil && sameEdges(g)
  ensures both(g, from, to) && gid(g, from.String()) == gid(g, to.String()) ==> err != nil && !iscause(err, graph.ErrNodeNotFound) && result == nil && sameEdges(g)
  ensures both(g, from, to) && old(ie(g, from, to)) != nil ==> err == nil && sameEdges(g) && oriented(result, ie(g, from, to), g.nodes[from.String()])
  ensures both(g, from, to) && old(ie(g, from, to)) == nil && from.String() != to.String() ==> err == nil && isEdge(result) && fresh(result) && ends(result, g.nodes[from.String()], g.nodes[to.String()]) && ie(g, from, to) == result
  ensures both(g, from, to) && old(ie(g, from, to)) == nil && from.String() != to.String() ==> forall i, j int64 :: (i != gid(g, from.String()) || j != gid(g, to.String())) && (bdir(g.WeightedGraphBuilder) || i != gid(g, to.String()) || j != gid(g, from.String())) ==> ge(g, i, j) == old(ge(g, i, j))
  ensures both(g, from, to) && old(ie(g, from, to)) == nil && from.String() != to.String() ==> (result as *memory.Edge).weight == fold(opts).Weight && (if fold(opts).Attrs != nil then (result as *memory.Edge).attrs == fold(opts).Attrs else newAttrs((result as *memory.Edge).attrs))
  ensures both(g, from, to) && old(ie(g, from, to)) == nil && from.String() != to.String() ==> if fold(opts).DOTID != "" then (result as *memory.Edge).uid.String() == fold(opts).DOTID else if fold(opts).UID != nil then (result as *memory.Edge).uid == fold(opts).UID else newUID((result as *memory.Edge).uid)

func (g *WG) Edge(ctx, uid, vid) (result, err)
  props C08
  flag locked
  requires uid != nil && vid != nil
  ensures !both(g, uid, vid) ==> err == graph.ErrNodeNotFound && result == nil
  ensures both(g, uid, vid) && ie(g, uid, vid) == nil ==> err == graph.ErrEdgeNotExist && result == nil
  ensures both(g, uid, vid) && ie(g, uid, vid) != nil ==> err == nil && oriented(result, ie(g, uid, vid), g.nodes[uid.String()])

fun fid(x any) int64 = (x as *memory.Edge).from.ID()
fun tid(x any) int64 = (x as *memory.Edge).to.ID()

func (g *WG) Edges(ctx) (result, err)
  props C08
  flag locked
  ensures err == nil
  ensures forall p int :: 0 <= p < len(result) ==> isEdge(result[p]) && ge(g, fid(result[p]), tid(result[p])) == result[p]
  ensures forall i, j int64 :: ge(g, i, j) != nil ==> exists p int :: 0 <= p < len(result) && result[p] == ge(g, i, j)
  ensures forall p, q int :: 0 <= p < q < len(result) ==> result[p] != result[q]
  # where it reads the iterator itself
  loopinv ipos(res("WeightedEdges", -1, 0)) == $i && $i <= elen(res("WeightedEdges", -1, 0))
  loopinv forall q int :: 0 <= q < $i ==> $s[q] == eat(res("WeightedEdges", -1, 0), q)
  loopinv forall q int :: 0 <= q < $i ==> $dst[q] == eat(res("WeightedEdges", -1, 0), q)

func (g *WG) From(ctx, uid) (result, err)
  props C08
  flag locked
  requires uid != nil
  ensures err == nil
  ensures !(uid.String() in g.nodes) ==> len(result) == 0
  ensures uid.String() in g.nodes ==> forall p int :: 0 <= p < len(result) ==> isNode(result[p]) && gn(g, nid(result[p])) == result[p] && ge(g, gid(g, uid.String()), nid(result[p])) != nil
  ensures uid.String() in g.nodes ==> forall i int64 :: ge(g, gid(g, uid.String()), i) != nil ==> exists p int :: 0 <= p < len(result) && result[p] == gn(g, i)
  ensures forall p, q int :: 0 <= p < q < len(result) ==> nuid(result[p]) != nuid(result[q])
  # where it reads the iterator itself
  loopinv ipos(res("From", -1, 0)) == $i && $i <= nlen(res("From", -1, 0))
  loopinv forall q int :: 0 <= q < $i ==> $s[q] == nat(res("From", -1, 0), q)
  loopinv forall q int :: 0 <= q < $i ==> $dst[q] == nat(res("From", -1, 0), q)

func (g *WG) Unlink(ctx, from, to, opts) err
  props C08
  flag locked
  requires from != nil && to != nil
  modifies ghost bedge(g.WeightedGraphBuilder)
  ensures err == nil && sameNodes(g)
  ensures !both(g, from, to) ==> sameEdges(g)
  ensures both(g, from, to) ==> forall i, j int64 :: ge(g, i, j) == if (i == gid(g, from.String()) && j == gid(g, to.String())) || (!bdir(g.WeightedGraphBuilder) && i == gid(g, to.String()) && j == gid(g, from.String())) then nil else old(ge(g, i, j))

# the subgraph (C09): the nodes of the ball, and a copy of every link between two of them
fun sg(x int) *memory.WG = res("NewWDG", 0, 0).WG
fun bl(x int) gonum.Nodes = res("Ball", 0, 0)
fun ball(g *memory.WG, uid uuid.UID, depth int, i int64) bool = within(bedge(g.WeightedGraphBuilder), gid(g, uid.String()), depth, i)
fun copyOf(x any, e any) bool = isEdge(x) && fresh(x as *memory.Edge) && (x as *memory.Edge).weight == (e as *memory.Edge).weight && copied((x as *memory.Edge).attrs, (e as *memory.Edge).attrs)
fun own(a attrs.Attrs) bool = a is *memattrs.Attrs && (a as *memattrs.Attrs) != nil && fresh(a as *memattrs.Attrs) && *(a as *memattrs.Attrs) != nil && fresh(*(a as *memattrs.Attrs))
fun sameAt(a attrs.Attrs, b attrs.Attrs, k string) bool = (adom(a, k) <==> adom(b, k)) && (adom(b, k) ==> aval(a, k) == aval(b, k))
fun copied(a attrs.Attrs, b attrs.Attrs) bool = own(a) && forall k string :: sameAt(a, b, k)

func (g *WG) SubGraph(ctx, uid, depth, opts) (result, err)
  props C09
  flag locked
  requires uid != nil && depth >= 0
  ensures err != nil ==> result == nil
  ensures !(uid.String() in g.nodes) ==> err == graph.ErrNodeNotFound
  ensures (uid.String() in g.nodes) && err != nil ==> !iscause(err, graph.ErrNodeNotFound)
  ensures (uid.String() in g.nodes) && err != nil ==> exists i, j int64 :: ge(g, i, j) != nil && afail((ge(g, i, j) as *memory.Edge).attrs)
  ensures err == nil ==> result is *memory.WDG && (result as *memory.WDG) != nil && fresh(result as *memory.WDG) && (result as *memory.WDG).WG != nil
  ensures err == nil ==> forall i int64 :: gn((result as *memory.WDG).WG, i) != nil ==> ball(g, uid, depth, i)
  ensures err == nil ==> forall i int64 :: ball(g, uid, depth, i) ==> gn((result as *memory.WDG).WG, i) != nil
  ensures err == nil ==> forall i int64 :: gn((result as *memory.WDG).WG, i) != nil ==> gn((result as *memory.WDG).WG, i) == gn(g, i)
  ensures err == nil ==> forall i, j int64 :: ge((result as *memory.WDG).WG, i, j) != nil <==> ge(g, i, j) != nil && ball(g, uid, depth, i) && ball(g, uid, depth, j)
  ensures err == nil ==> forall i, j int64 :: ge((result as *memory.WDG).WG, i, j) != nil ==> ends(ge((result as *memory.WDG).WG, i, j), gn(g, i), gn(g, j)) && copyOf(ge((result as *memory.WDG).WG, i, j), ge(g, i, j))
  # the walk
  loopinv [flat] forall i int64 :: gn(sg(0), i) != nil ==> 0 <= npos(bl(0), i) && npos(bl(0), i) < $i && nat(bl(0), npos(bl(0), i)) == gn(g, i) && gn(sg(0), i) == gn(g, i) && inb(bl(0), i)
  loopinv [flat] forall p int :: 0 <= p < $i ==> gn(sg(0), nat(bl(0), p).ID()) == nat(bl(0), p)
  loopinv [flat] ipos(bl(0)) == $i
  loopinv [flat] forall k string :: k in sg(0).nodes ==> isNode(sg(0).nodes[k]) && nuid(sg(0).nodes[k]) == k && gn(sg(0), gid(sg(0), k)) == sg(0).nodes[k]
  loopinv [flat] forall i int64 :: gn(sg(0), i) != nil ==> (nuid(gn(sg(0), i)) in sg(0).nodes) && sg(0).nodes[nuid(gn(sg(0), i))] == gn(sg(0), i)
  loopinv [flat] forall i, j int64 :: ge(sg(0), i, j) == nil
  loopinv [flat] forall i int64 :: (i in $map <==> gn(sg(0), i) != nil) && (i in $map ==> $map[i] == gn(sg(0), i))
  # the links
  loopinv [inmap] forall i int64 :: gn(sg(0), i) == entry(gn(sg(0), i))
  loopinv [inmap] forall i int64 :: gn(sg(0), i) != nil ==> inb(bl(0), i)
  loopinv [inmap] forall k string :: k in sg(0).nodes ==> isNode(sg(0).nodes[k]) && nuid(sg(0).nodes[k]) == k && gn(sg(0), gid(sg(0), k)) == sg(0).nodes[k]
  loopinv [inmap] forall i int64 :: gn(sg(0), i) != nil ==> (nuid(gn(sg(0), i)) in sg(0).nodes) && sg(0).nodes[nuid(gn(sg(0), i))] == gn(sg(0), i)
  loopinv [inmap] forall i, j int64 :: ge(sg(0), i, j) != nil ==> gn(sg(0), i) != nil && gn(sg(0), j) != nil && ge(g, i, j) != nil && isEdge(ge(sg(0), i, j)) && ends(ge(sg(0), i, j), gn(g, i), gn(g, j)) && fresh(ge(sg(0), i, j) as *memory.Edge)
  loopinv [inmap] forall i, j int64 :: ge(sg(0), i, j) != nil ==> (ge(sg(0), i, j) as *memory.Edge).weight == (ge(g, i, j) as *memory.Edge).weight
  loopinv [inmap] forall i, j int64 :: ge(sg(0), i, j) != nil ==> own((ge(sg(0), i, j) as *memory.Edge).attrs)
  loopinv [inmap] forall i, j int64 :: ge(sg(0), i, j) != nil ==> forall k string :: sameAt((ge(sg(0), i, j) as *memory.Edge).attrs, (ge(g, i, j) as *memory.Edge).attrs, k)
  loopinv [inmap] forall p int :: 0 <= p < $m ==> forall j int64 :: gn(sg(0), j) != nil && ge(g, skey(p), j) != nil ==> ge(sg(0), skey(p), j) != nil
  loopinv [deep] ipos(res("From", -1, 0)) == $i
  loopinv [deep] forall q int :: 0 <= q < ipos(res("From", -1, 0)) ==> gn(sg(0), nat(res("From", -1, 0), q).ID()) != nil ==> ge(sg(0), skey($m), nat(res("From", -1, 0), q).ID()) != nil
  loopinv [deep] forall q int :: 0 <= q < $i ==> gn(sg(0), $range[q].ID()) != nil ==> ge(sg(0), skey($m), $range[q].ID()) != nil
