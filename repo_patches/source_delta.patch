From 2084314673f15d239332ed0eee68198e21b25d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 01/22] fix: cache: a put no longer drops the other links of
 its end points

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From 78338e83bf52079e4b87f2e6a2ddfdc26241045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 02/22] fix: cache: delete removes the links from both indexes

---
 pkg/cache/memory/links.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..30e56ff 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,6 +103,14 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
+	for t := range c.from[uid] {
+		delete(c.to[t], uid)
+	}
+
+	for f := range c.to[uid] {
+		delete(c.from[f], uid)
+	}
+
 	delete(c.to, uid)
 	delete(c.from, uid)
 	return nil
-- 
2.43.0


From ff49d61224110c22124c7d0a3280529e1ecaa5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 03/22] fix: cache: links are keyed by UID value, not by the
 identity of the UID object

---
 pkg/cache/memory/links.go | 42 ++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 30e56ff..5e21c41 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -11,9 +11,9 @@ import (
 // Links in is-memory cache.Link cache.
 type Links struct {
 	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
+	from map[string]map[string]cache.Link
 	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,16 +103,18 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	for t := range c.from[uid] {
-		delete(c.to[t], uid)
+	id := uid.String()
+
+	for t := range c.from[id] {
+		delete(c.to[t], id)
 	}
 
-	for f := range c.to[uid] {
-		delete(c.from[f], uid)
+	for f := range c.to[id] {
+		delete(c.from[f], id)
 	}
 
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, id)
+	delete(c.from, id)
 	return nil
 }
 
@@ -128,8 +130,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -156,7 +158,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -179,7 +181,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From 130ea63cd4881230358f35bd6e406cc6f2a3e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 04/22] fix: graph: DOT releases the read lock

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From b60a84c448427538c6494038885f8161494a1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 05/22] fix: graph: Link checks and links in one step and does
 not lock recursively

---
 pkg/graph/memory/wg.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..11850d1 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -188,33 +188,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -231,6 +225,12 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
+	return g.edge(uid, vid)
+}
+
+// edge returns edge between nodes with the given UIDs.
+// NOTE: g.mu must be held by the caller.
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
-- 
2.43.0


From 6058652a961e33a24fd0e3e695ad2f3c7db1ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 06/22] fix: graph: linking a node to itself returns error
 instead of panicking

---
 pkg/graph/memory/wg.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 11850d1..3df2c72 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -186,7 +186,7 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 }
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
-// It returns error if either of the nodes does not exist in the graph.
+// It returns error if either of the nodes does not exist in the graph or if both are the same node.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -210,6 +210,11 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	// NOTE: self links are not supported by the underlying graph
+	if f.(*Node).ID() == t.(*Node).ID() {
+		return nil, graph.ErrUnsupported
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6c3fb97599e22232bad2e50d4cafc7cb27f0a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 07/22] fix: graph: RemoveNode and Unlink look up and remove in
 one step

---
 pkg/graph/memory/wg.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 3df2c72..716c793 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -162,22 +162,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -298,26 +295,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 0c11b40702660f404111d0174fa97682c2af2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 08/22] fix: graph: AddNode identifies nodes by UID, rejects ID
 clashes and upserts the node everywhere

---
 pkg/graph/memory/wg.go | 48 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 716c793..c387d0b 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -97,7 +97,7 @@ func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option
 // AddNode allows to perform an upsert operation on the graph.
 // Upsert updates the node with the same UID if the node exists in the graph.
 // If upsert is not requested and the node already exists an error is returned.
-// It panics if n.ID() is not unique within the graph.
+// It returns error if n.ID() is used by a node with different UID in the graph.
 // It returns error if n is not memory.Node.
 func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) error {
 	gopts := graph.Options{}
@@ -113,16 +113,20 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
-		}
+	node, exists := g.nodes[n.UID().String()]
+	if exists && !gopts.Upsert {
+		return graph.ErrDuplicateNode
+	}
 
-		g.nodes[n.UID().String()] = n
+	// NOTE: the ID of n may only be taken by the node that is being replaced
+	if !exists || node.(*Node).ID() != gnode.ID() {
+		if g.WeightedGraphBuilder.Node(gnode.ID()) != nil {
+			return graph.ErrDuplicateNode
+		}
+	}
 
+	if exists {
+		g.replace(node.(*Node), gnode)
 		return nil
 	}
 
@@ -132,6 +136,32 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	return nil
 }
 
+// replace replaces the node old with the node n which has the same UID.
+// All the links of the old node become the links of the new node.
+// NOTE: g.mu must be held by the caller.
+func (g *WG) replace(old, n *Node) {
+	edges := gonum.WeightedEdgesOf(g.WeightedGraphBuilder.WeightedEdges())
+
+	g.WeightedGraphBuilder.RemoveNode(old.ID())
+	g.WeightedGraphBuilder.AddNode(n)
+	g.nodes[n.UID().String()] = n
+
+	for _, we := range edges {
+		e := *we.(*Edge)
+
+		switch old.ID() {
+		case e.from.ID():
+			e.from = n
+		case e.to.ID():
+			e.to = n
+		default:
+			continue
+		}
+
+		g.SetWeightedEdge(&e)
+	}
+}
+
 // Node returns the node with the given ID if it exists
 // in the graph, and error if it could not be found.
 func (g *WG) Node(ctx context.Context, uid uuid.UID) (graph.Node, error) {
-- 
2.43.0


From 17041808a09d9587fcb24c5247645566803272af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 09/22] fix: graph: SubGraph reads the graph under the lock
 throughout

---
 pkg/graph/memory/wg.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index c387d0b..0c30693 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -349,12 +349,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -380,11 +380,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
-- 
2.43.0


From 704c0ac6833a43c96b401dc21fed3e6e6dd15efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 10/22] fix: graph: links of a subgraph take weight and
 attributes of the link they copy

---
 pkg/graph/memory/wg.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 0c30693..daacc0b 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -394,24 +394,21 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
+				if we := g.WeightedEdge(id, peer.ID()); we != nil {
+					e := we.(*Edge)
+
+					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+					if err != nil {
+						return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+					}
+
+					opts := []graph.Option{
+						graph.WithAttrs(a),
+						graph.WithWeight(e.Weight()),
+					}
+
+					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+						return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 					}
 				}
 			}
-- 
2.43.0


From c7574bb7711df19d33b22a7cae7665cbc80657ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 11/22] fix: store: upsert stores the new entity

---
 pkg/store/memory/store.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..b714188 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -86,6 +86,15 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		return err
 	}
 
+	// NOTE: NewNode returns the stored node if there already is one
+	// with the same UID, but we want to store e in its place.
+	if node, ok := n.(*memory.Node); ok {
+		n, err = memory.NewNode(node.ID(), e, graph.WithAttrs(aopts.Attrs))
+		if err != nil {
+			return err
+		}
+	}
+
 	return m.g.AddNode(ctx, n, graph.WithUpsert())
 }
 
-- 
2.43.0


From 15dde440832d6a536a1c2d2a2c8fd7bd75dec331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 12/22] fix: store: BulkGet returns all the entities

---
 pkg/store/memory/store.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index b714188..bf6da7c 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -209,8 +209,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 
 	ents := make([]store.Entity, len(uids))
 
-	i := 0
-	for _, uid := range uids {
+	for i, uid := range uids {
 		e, err := m.get(ctx, uid, opts...)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9d35fbd378428da297699e69c21cf5152a68af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 13/22] fix: broker: subscribing keeps the other subscriptions
 to the topic

---
 pkg/broker/memory/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..d90d370 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -188,7 +188,7 @@ func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (
 		exit:   make(chan struct{}),
 	}
 
-	if m.subs[topic][sub.id] == nil {
+	if m.subs[topic] == nil {
 		m.subs[topic] = make(map[string]*Subscriber)
 	}
 	m.subs[topic][sub.id] = sub
-- 
2.43.0


From c583139e3e5679bbc00eaaec0a40b2603d496f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 14/22] fix: broker: Close drops all the topics, not only those
 with subscribers

---
 pkg/broker/memory/memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index d90d370..de06cc3 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -212,6 +212,9 @@ func (m *Memory) Close() error {
 			delete(m.subs[topic], id)
 		}
 		delete(m.subs, topic)
+	}
+
+	for topic := range m.topics {
 		delete(m.topics, topic)
 	}
 
-- 
2.43.0


From dadc45b42dae1df1bc4ec32b2a48a777b655de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 15/22] fix: broker: concurrent Opens start one session

---
 pkg/broker/memory/memory.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index de06cc3..18250f3 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -87,15 +87,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
-- 
2.43.0


From 1333e2571e5c66d96f553dbe1bc436ba0875577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 16/22] fix: broker: Pub and Sub check the session and use its
 topics in one step

---
 pkg/broker/memory/memory.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 18250f3..2a6aab1 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -122,13 +122,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -140,6 +133,11 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -155,18 +153,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
-- 
2.43.0


From f4a34e2a09740869dfe4f674473720bc0e6c4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 17/22] fix: broker: the end of an old session never closes a
 newer one

---
 pkg/broker/memory/memory.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 2a6aab1..8554906 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -67,15 +67,15 @@ func New(opts ...broker.Option) (*Memory, error) {
 }
 
 // run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+func (m *Memory) run(ctx context.Context, exit chan struct{}, ctl chan sub) {
 	for {
 		select {
 		case <-ctx.Done():
+			_ = m.closeSession(exit)
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -100,7 +100,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -108,8 +108,8 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
+		return m.closeSession(q.exit)
+	case <-q.exit:
 		return nil
 	case <-time.After(timeout):
 		return broker.ErrTimeout
@@ -193,6 +193,25 @@ func (m *Memory) Close() error {
 	m.Lock()
 	defer m.Unlock()
 
+	return m.close()
+}
+
+// closeSession closes the session with the given exit channel.
+// If the session has already been closed it is a no-op.
+func (m *Memory) closeSession(exit chan struct{}) error {
+	m.Lock()
+	defer m.Unlock()
+
+	if m.exit != exit {
+		return nil
+	}
+
+	return m.close()
+}
+
+// close closes the current session.
+// NOTE: m must be locked by the caller.
+func (m *Memory) close() error {
 	if !m.connected {
 		return nil
 	}
-- 
2.43.0


From 738932c36182300573d3f02b869ca9fc58080731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 18/22] fix: broker: Unsubscribe takes the write lock

---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From 1a9684a2351eead4d4d968180bc54b570911aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 19/22] fix: digester: options given to the constructor are
 used

---
 pkg/broker/digester/simple/digester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..32530f2 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -37,7 +37,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
-- 
2.43.0


From 6d14a1338ba63dc28b102a324039072f15a7d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 20/22] fix: digester: Digest stops once its context is
 cancelled

---
 pkg/broker/digester/simple/digester.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index 32530f2..7fad035 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -28,6 +28,10 @@ func NewDigester(opts ...digester.Option) (*Digester, error) {
 // handle processes rmessages received by sub with handler h.
 func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.Handler) error {
 	for {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		if err := sub.Receive(ctx, h); err != nil {
 			return err
 		}
-- 
2.43.0


From ff72c58aaaa19dc2f8c0cb1b6ff1c1e8ea04d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 21/22] fix: ingester: options given to the constructor are
 used

---
 pkg/broker/ingester/simple/ingester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 10476022067636bac4ed93df7f00e0193633881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 22/22] fix: runner: the scraper gets all the options,
 including those of the constructor

---
 runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..f2eebd9 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,10 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0

