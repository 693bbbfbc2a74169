# Rendering of graphs by gonum.org/v1/gonum/graph/encoding/dot: it reads the graph (assumed).
package gonum.org/v1/gonum/graph/encoding/dot

extern func Marshal(g, name, prefix, indent) (b, err)
  requires g != nil
