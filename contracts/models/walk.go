// Package zzmodel says what functions of other modules that call back do, as programs over the
// functions assumed in walk.gvc.  The verifier overlays it on the source; it is never compiled
// into anything that runs.
package zzmodel

import (
	"gonum.org/v1/gonum/graph"
	"gonum.org/v1/gonum/graph/traverse"
)

// Ball lists the nodes of a walk in the order in which they are visited.
func Ball(b *traverse.BreadthFirst, g traverse.Graph, from graph.Node, until func(graph.Node, int) bool) graph.Nodes {
	panic("specification only")
}

// Same says that what ends the walk has not changed.
func Same(it graph.Nodes, until func(graph.Node, int) bool) { panic("specification only") }

// Depth is how far a visited node is.
func Depth(it graph.Nodes) int { panic("specification only") }

// Last is the node the walk ended at.
func Last(it graph.Nodes) graph.Node { panic("specification only") }

// Walk is (*traverse.BreadthFirst).Walk.
func Walk(b *traverse.BreadthFirst, g traverse.Graph, from graph.Node, until func(graph.Node, int) bool) graph.Node {
	visit := b.Visit
	it := Ball(b, g, from, until)
	for it.Next() {
		if visit != nil {
			visit(it.Node())
		}
		_ = until(it.Node(), Depth(it))
		Same(it, until)
	}
	return Last(it)
}
