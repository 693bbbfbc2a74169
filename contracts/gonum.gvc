# The containers of gonum.org/v1/gonum/graph that the graphs are built on (assumed).
package gonum.org/v1/gonum/graph
import gonum gonum.org/v1/gonum/graph

pure ID From To Weight
nonnil From To

# what an iterator over nodes (weighted edges) goes through, and how far it is
ufun nlen(it gonum.Nodes) int
ufun nat(it gonum.Nodes, i int) gonum.Node
ufun npos(it gonum.Nodes, id int64) int
ufun elen(it gonum.WeightedEdges) int
ufun eat(it gonum.WeightedEdges, i int) gonum.WeightedEdge
ufun epos(it gonum.WeightedEdges, i int64, j int64) int
deepghost ipos(any) int

iface Nodes
method Next() result
  flag noalloc
  modifies ghost ipos(self)
  ensures result <==> old(ipos(self)) < nlen(self)
  ensures ipos(self) == if old(ipos(self)) < nlen(self) then old(ipos(self)) + 1 else old(ipos(self))
method Node() result
  flag noalloc
  requires 0 < ipos(self) && ipos(self) <= nlen(self)
  ensures result == nat(self, ipos(self) - 1)
method Len() result
  flag noalloc
  ensures result == nlen(self) - ipos(self)

iface WeightedEdges
method Next() result
  flag noalloc
  modifies ghost ipos(self)
  ensures result <==> old(ipos(self)) < elen(self)
  ensures ipos(self) == if old(ipos(self)) < elen(self) then old(ipos(self)) + 1 else old(ipos(self))
method WeightedEdge() result
  flag noalloc
  requires 0 < ipos(self) && ipos(self) <= elen(self)
  ensures result == eat(self, ipos(self) - 1)
method Len() result
  flag noalloc
  ensures result == elen(self) - ipos(self)

extern func NodesOf(it) result
  modifies ghost ipos(it)
  ensures it == nil ==> len(result) == 0
  ensures it != nil ==> len(result) == nlen(it) - old(ipos(it)) && forall i int :: 0 <= i < len(result) ==> result[i] == nat(it, old(ipos(it)) + i)
  ensures it != nil ==> forall p int {: nat(it, p) } :: old(ipos(it)) <= p < nlen(it) ==> result[p - old(ipos(it))] == nat(it, p)

extern func WeightedEdgesOf(it) result
  modifies ghost ipos(it)
  ensures it == nil ==> len(result) == 0
  ensures it != nil ==> len(result) == elen(it) - old(ipos(it)) && forall i int :: 0 <= i < len(result) ==> result[i] == eat(it, old(ipos(it)) + i)
