# Breadth-first walks of gonum.org/v1/gonum/graph/traverse, as the program models/walk.go over these
# functions (assumed).
package internal/zzmodel
import traverse gonum.org/v1/gonum/graph/traverse
import gonum gonum.org/v1/gonum/graph
import memory graph/memory

model "(*gonum.org/v1/gonum/graph/traverse.BreadthFirst).Walk" by Walk

# i can be reached from r in at most d steps along the edges e
ufun within(e fmap[int64]fmap[int64]gonum.WeightedEdge, r int64, d int, i int64) bool
# the depth at which a walk ends; negative when it does not end before everything is visited
ufun ubound(it gonum.Nodes) int
# the nodes it goes to
ufun inb(it gonum.Nodes, i int64) bool
ufun wfrom(it gonum.Nodes) gonum.Node

extern func Ball(b, g, from, until) result
  flag event Ball
  flag lazy bnode,bedge
  requires b != nil && b.Traverse == nil && b.visited == nil
  requires until != nil && g != nil && from != nil && bnode(g, from.ID()) == from
  modifies traverse.BreadthFirst.visited(b)
  ensures result != nil && fresh(result) && ipos(result) == 0 && 0 <= nlen(result) && wfrom(result) == from
  ensures ubound(result) >= 0 ==> holds(until, from, ubound(result)) && forall d int :: 0 <= d < ubound(result) ==> !holds(until, from, d)
  ensures ubound(result) < 0 ==> forall d int :: 0 <= d ==> !holds(until, from, d)
  ensures ubound(result) >= 0 ==> forall i int64 :: inb(result, i) <==> within(bedge(g), from.ID(), ubound(result), i)
  ensures ubound(result) < 0 ==> forall i int64 :: inb(result, i) <==> exists d int :: d >= 0 && within(bedge(g), from.ID(), d, i)
  ensures forall p int :: 0 <= p < nlen(result) ==> nat(result, p) != nil && bnode(g, nat(result, p).ID()) == nat(result, p) && npos(result, nat(result, p).ID()) == p && inb(result, nat(result, p).ID())
  ensures forall i int64 :: inb(result, i) ==> 0 <= npos(result, i) && npos(result, i) < nlen(result) && nat(result, npos(result, i)) == bnode(g, i)

extern func Same(it, until)
  flag noalloc
  requires ubound(it) >= 0 ==> holds(until, wfrom(it), ubound(it)) && forall d int :: 0 <= d < ubound(it) ==> !holds(until, wfrom(it), d)
  requires ubound(it) < 0 ==> forall d int :: 0 <= d ==> !holds(until, wfrom(it), d)

extern func Depth(it) result
  flag noalloc
  ensures result >= 0

extern func Last(it) result
