# Constructors of the graphs of gonum (assumed).
package gonum.org/v1/gonum/graph/simple
import simple gonum.org/v1/gonum/graph/simple
import memory graph/memory

extern func NewWeightedDirectedGraph(self, absent) result
  ensures result != nil && fresh(result)
  ensures bdir(box(*simple.WeightedDirectedGraph, result))
  ensures forall i int64 :: bnode(box(*simple.WeightedDirectedGraph, result), i) == nil
  ensures forall i, j int64 :: bedge(box(*simple.WeightedDirectedGraph, result), i, j) == nil

extern func NewWeightedUndirectedGraph(self, absent) result
  ensures result != nil && fresh(result)
  ensures !bdir(box(*simple.WeightedUndirectedGraph, result))
  ensures forall i int64 :: bnode(box(*simple.WeightedUndirectedGraph, result), i) == nil
  ensures forall i, j int64 :: bedge(box(*simple.WeightedUndirectedGraph, result), i, j) == nil
