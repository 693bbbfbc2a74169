"""Behaviour-preserving edits: every check has to stay quiet on each (run: refactor.py [id...])."""
import subprocess, sys, os, time
W=os.environ.get("REFAC","/tmp/refac"); GVC=os.environ.get("GVC","/tmp/gvc")
R=[]
def r(id, props, *edits): R.append((id, props.split(), edits))
WG="pkg/graph/memory/wg.go"
r("sg-helpers","C09 C12",(WG,'''	visit := func(n gonum.Node) {
		vnode := n.(*Node)

		if err := sg.AddNode(ctx, vnode); err != nil {
			sgErr = err
			return
		}

		sgNodes[vnode.ID()] = vnode
	}

	bfs := traverse.BreadthFirst{
		Visit: visit,
	}
''','''	bfs := traverse.BreadthFirst{
		Visit: func(n gonum.Node) {
			vnode := n.(*Node)
			err := sg.AddNode(ctx, vnode)
			if err == nil {
				sgNodes[vnode.ID()] = vnode
			} else {
				sgErr = err
			}
		},
	}
'''),(WG,'''					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
					if err != nil {
						return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
					}

					opts := []graph.Option{
						graph.WithAttrs(a),
						graph.WithWeight(e.Weight()),
					}

					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
						return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
					}
''','''					if err := copyLink(ctx, sg, node, to, e); err != nil {
						return nil, err
					}
'''),(WG,'''// DOTID returns the graph DOT ID.
''','''// copyLink links from to to in sg the way e does.
func copyLink(ctx context.Context, sg *WDG, from, to graph.Node, e *Edge) error {
	a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
	if err != nil {
		return fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
	}

	if _, err := sg.Link(ctx, from.UID(), to.UID(), graph.WithWeight(e.Weight()), graph.WithAttrs(a)); err != nil {
		return fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
	}

	return nil
}

// DOTID returns the graph DOT ID.
'''))
r("sg-ge","C09",(WG,"		return d == depth\n","		return d >= depth\n"))
r("sg-continue","C09",(WG,'''			peer := pnode.(*Node)
			if to, ok := sgNodes[peer.ID()]; ok {
				if we := g.WeightedEdge(id, peer.ID()); we != nil {
					e := we.(*Edge)

					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
					if err != nil {
						return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
					}

					opts := []graph.Option{
						graph.WithAttrs(a),
						graph.WithWeight(e.Weight()),
					}

					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
						return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
					}
				}
			}
''','''			peer := pnode.(*Node)
			to, ok := sgNodes[peer.ID()]
			if !ok {
				continue
			}

			we := g.WeightedEdge(id, to.(*Node).ID())
			if we == nil {
				continue
			}

			e := we.(*Edge)

			a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
			if err != nil {
				return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
			}

			if _, err := sg.Link(ctx, node.UID(), to.UID(), graph.WithAttrs(a), graph.WithWeight(e.Weight())); err != nil {
				return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
			}
'''))
r("sg-ids","C09",(WG,"	for id, node := range sgNodes {\n","	for id := range sgNodes {\n		node := sgNodes[id]\n"),(WG,'''		for nodes.Next() {
			pnode := nodes.Node()
			peer := pnode.(*Node)
''','''		for nodes.Next() {
			peer := nodes.Node().(*Node)
'''))
r("sg-slice","C09",(WG,'''		nodes := g.WeightedGraphBuilder.From(id)
		for nodes.Next() {
			pnode := nodes.Node()
			peer := pnode.(*Node)
''','''		for _, pnode := range gonum.NodesOf(g.WeightedGraphBuilder.From(id)) {
			peer := pnode.(*Node)
'''))
r("wg-append","C07 C08",(WG,'''	nodes := make([]graph.Node, len(graphNodes))

	for i, n := range graphNodes {
		nodes[i] = n.(*Node)
	}

	return nodes, nil
}

// RemoveNode''','''	nodes := make([]graph.Node, 0, len(graphNodes))

	for _, n := range graphNodes {
		nodes = append(nodes, n.(*Node))
	}

	return nodes, nil
}

// RemoveNode'''),(WG,'''	edges := make([]graph.Edge, len(graphEdges))

	for i, e := range graphEdges {
		edges[i] = e.(*Edge)
	}
''','''	var edges []graph.Edge

	for i := range graphEdges {
		edges = append(edges, graphEdges[i].(*Edge))
	}
'''),(WG,'''	graphNodes := gonum.NodesOf(gnodes)

	g.mu.RUnlock()

	nodes := make([]graph.Node, len(graphNodes))

	for i, n := range graphNodes {
		nodes[i] = n.(*Node)
	}

	return nodes, nil
''','''	defer g.mu.RUnlock()

	var nodes []graph.Node
	for gnodes.Next() {
		nodes = append(nodes, gnodes.Node().(*Node))
	}

	return nodes, nil
'''))
r("wg-nodes-map","C07",(WG,'''	graphNodes := gonum.NodesOf(g.WeightedGraphBuilder.Nodes())
	g.mu.RUnlock()

	nodes := make([]graph.Node, len(graphNodes))

	for i, n := range graphNodes {
		nodes[i] = n.(*Node)
	}

	return nodes, nil
''','''	defer g.mu.RUnlock()

	nodes := make([]graph.Node, 0, len(g.nodes))
	for _, n := range g.nodes {
		nodes = append(nodes, n)
	}

	return nodes, nil
'''))
r("wg-helpers","C07 C08 C12",(WG,'''	f, ok := g.nodes[from.String()]
	if !ok {
		return nil, graph.ErrNodeNotFound
	}

	t, ok := g.nodes[to.String()]
	if !ok {
		return nil, graph.ErrNodeNotFound
	}

	// NOTE: self links are not supported by the underlying graph
	if f.(*Node).ID() == t.(*Node).ID() {
		return nil, graph.ErrUnsupported
	}

	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
''','''	f, t, err := g.ends(from, to)
	if err != nil {
		return nil, err
	}

	// NOTE: self links are not supported by the underlying graph
	if f.ID() == t.ID() {
		return nil, graph.ErrUnsupported
	}

	edge, err := NewEdge(f, t, opts...)
'''),(WG,'''	from, ok := g.nodes[uid.String()]
	if !ok {
		return nil, graph.ErrNodeNotFound
	}

	to, ok := g.nodes[vid.String()]
	if !ok {
		return nil, graph.ErrNodeNotFound
	}
''','''	from, to, err := g.ends(uid, vid)
	if err != nil {
		return nil, err
	}
'''),(WG,"g.WeightedEdge(from.(*Node).ID(), to.(*Node).ID()); e != nil","g.WeightedEdge(from.ID(), to.ID()); e != nil"),(WG,'''// Edges returns all''','''// ends returns the nodes with the given UIDs.
func (g *WG) ends(uid, vid uuid.UID) (*Node, *Node, error) {
	from, ok := g.nodes[uid.String()]
	if !ok {
		return nil, nil, graph.ErrNodeNotFound
	}

	to, ok := g.nodes[vid.String()]
	if !ok {
		return nil, nil, graph.ErrNodeNotFound
	}

	return from.(*Node), to.(*Node), nil
}

// Edges returns all'''))
r("wg-addnode-order","C07 C08",(WG,'''	g.WeightedGraphBuilder.AddNode(gnode)
	g.nodes[n.UID().String()] = n

	return nil
}

// replace''','''	g.nodes[gnode.UID().String()] = gnode
	g.addNodeTo(gnode)

	return nil
}

// addNodeTo adds n to the builder.
func (g *WG) addNodeTo(n *Node) {
	g.WeightedGraphBuilder.AddNode(n)
}

// replace'''),(WG,'''	delete(g.nodes, uid.String())

	return nil
''','''	key := uid.String()
	if _, ok := g.nodes[key]; ok {
		delete(g.nodes, key)
	}

	return nil
'''),(WG,'''	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
''','''	fid, tid := f.(*Node).ID(), t.(*Node).ID()
	if g.WeightedGraphBuilder.WeightedEdge(fid, tid) != nil {
		g.WeightedGraphBuilder.RemoveEdge(fid, tid)
	}
'''))
r("wg-newnode","C07 C12",(WG,'''	g.mu.Lock()
	gnode := g.WeightedGraphBuilder.NewNode()
	g.mu.Unlock()

	node, err := NewNode(gnode.ID(), ent, opts...)
	if err != nil {
		return nil, err
	}

	g.mu.Lock()
	if n, ok := g.nodes[node.UID().String()]; ok {
		g.mu.Unlock()
		return n, nil
	}
	g.mu.Unlock()

	return node, nil
''','''	g.mu.RLock()
	defer g.mu.RUnlock()

	if n, ok := g.nodes[ent.UID().String()]; ok {
		return n, nil
	}

	return NewNode(g.WeightedGraphBuilder.NewNode().ID(), ent, opts...)
'''))
ST="pkg/store/memory/store.go"
r("store-fold","C10 C11 C12",(ST,'''	aopts := store.Options{}
	for _, apply := range opts {
		apply(&aopts)
	}
''','''	aopts := fold(opts)
'''),(ST,'''	lopts := store.Options{}
	for _, apply := range opts {
		apply(&lopts)
	}
''','''	lopts := fold(opts)
'''),(ST,'''	gopts := store.Options{}
	for _, apply := range opts {
		apply(&gopts)
	}

''',''''''),(ST,'''// Add stores e''','''func fold(opts []store.Option) store.Options {
	o := store.Options{}
	for i := range opts {
		opts[i](&o)
	}
	return o
}

// Add stores e'''),(ST,'''	ents := make([]store.Entity, len(uids))

	for i, uid := range uids {
		e, err := m.get(ctx, uid, opts...)
		if err != nil {
			return nil, err
		}
		ents[i] = e
	}
	return ents, nil
''','''	ents := make([]store.Entity, 0, len(uids))

	for i := 0; i < len(uids); i++ {
		e, err := m.get(ctx, uids[i], opts...)
		if err != nil {
			return nil, err
		}
		ents = append(ents, e)
	}
	return ents, nil
'''))
r("store-add","C10 C11",(ST,'''	gopts := []graph.Option{}

	if !aopts.Upsert {
		err := m.g.AddNode(ctx, n, gopts...)
		if err != nil && errors.Is(err, graph.ErrDuplicateNode) {
			return store.ErrAlreadyExists
		}
		return err
	}
''','''	if !aopts.Upsert {
		switch err := m.g.AddNode(ctx, n); {
		case err == nil:
			return nil
		case errors.Is(err, graph.ErrDuplicateNode):
			return store.ErrAlreadyExists
		default:
			return err
		}
	}
'''),(ST,'''	_, err := m.g.Link(ctx, from, to, graph.WithAttrs(lopts.Attrs))
	if err != nil && errors.Is(err, graph.ErrNodeNotFound) {
		return store.ErrEntityNotFound
	}
	return err
''','''	if _, err := m.g.Link(ctx, from, to, graph.WithAttrs(lopts.Attrs)); err != nil {
		if errors.Is(err, graph.ErrNodeNotFound) {
			return store.ErrEntityNotFound
		}
		return err
	}
	return nil
'''),(ST,'''	if err := m.g.Unlink(ctx, from, to); err != nil {
		return err
	}
	return nil
''','''	return m.g.Unlink(ctx, from, to)
'''))
BM="pkg/broker/memory/memory.go"
Q='''	q, ok := m.topics[topic]
	if !ok {
		q = queue{
			msg:  make(chan broker.Message, m.size),
			exit: m.exit,
		}
		m.topics[topic] = q
	}
'''
r("broker-queue","C12 C13 C14 C15",(BM,Q+"	m.Unlock()\n","	q := m.queue(topic)\n	m.Unlock()\n"),(BM,Q+"\n	sub := &Sub","	q := m.queue(topic)\n\n	sub := &Sub"),(BM,"// Close closes broker",'''// queue returns the queue of the topic.
func (m *Memory) queue(topic string) queue {
	if q, ok := m.topics[topic]; ok {
		return q
	}

	q := queue{
		msg:  make(chan broker.Message, m.size),
		exit: m.exit,
	}
	m.topics[topic] = q

	return q
}

// Close closes broker'''))
r("broker-timer","C12 C13 C14 C16",(BM,'''	select {
	case <-ctx.Done():
		return m.closeSession(q.exit)
	case <-q.exit:
		return nil
	case <-time.After(timeout):
		return broker.ErrTimeout
''','''	timer := time.NewTimer(timeout)
	defer timer.Stop()

	select {
	case <-timer.C:
		return broker.ErrTimeout
	case <-ctx.Done():
		return m.closeSession(q.exit)
	case <-q.exit:
		return nil
'''))
r("broker-close","C12 C13 C14 C15",(BM,'''	for topic, subs := range m.subs {
		for id := range subs {
			delete(m.subs[topic], id)
		}
		delete(m.subs, topic)
	}

	for topic := range m.topics {
		delete(m.topics, topic)
	}

	m.connected = false
''','''	m.connected = false
	m.subs = make(map[string]map[string]*Subscriber)
	m.topics = make(map[string]queue)
'''),(BM,'''			if _, ok := m.subs[sub.topic]; ok {
				delete(m.subs[sub.topic], sub.id)
			}
''','''			delete(m.subs[sub.topic], sub.id)
'''),(BM,'''	if m.subs[topic] == nil {
		m.subs[topic] = make(map[string]*Subscriber)
	}
	m.subs[topic][sub.id] = sub
''','''	subs, ok := m.subs[topic]
	if !ok {
		subs = make(map[string]*Subscriber)
		m.subs[topic] = subs
	}
	subs[sub.id] = sub
'''))
SU="pkg/broker/memory/subscriber.go"
r("sub-active","C12 C13 C14 C15",(SU,'''	s.RLock()
	if !s.active {
		s.RUnlock()
		return broker.ErrSubscriptionInactive
	}
	s.RUnlock()
''','''	if !s.isActive() {
		return broker.ErrSubscriptionInactive
	}
'''),(SU,'''		if err := h(ctx, msg); err != nil {
			return err
		}
	}

	return nil
}
''','''		return h(ctx, msg)
	}
}

func (s *Subscriber) isActive() bool {
	s.RLock()
	defer s.RUnlock()

	return s.active
}
'''),(SU,'''	if s.active {
		close(s.exit)
		s.active = false
		// TODO(milosgajdos): should this really be async?
		go func(id, topic string) {
			select {
			case s.ctl <- sub{id: id, topic: topic}:
			case <-s.queue.exit:
			}
		}(s.id, s.topic)
	}

	return nil
''','''	if !s.active {
		return nil
	}

	s.active = false
	close(s.exit)

	go s.leave()

	return nil
'''),(SU,'''// Receive''','''// leave tells the broker that the subscription is gone.
func (s *Subscriber) leave() {
	select {
	case s.ctl <- sub{id: s.id, topic: s.topic}:
	case <-s.queue.exit:
	}
}

// Receive'''))
C="pkg/cache/memory/links.go"
r("cache-put","C06 C12",(C,'''	if copts.Upsert {
		c.from[f][t] = link
		c.to[t][f] = link
		return nil
	}

	if _, ok := c.from[f][t]; !ok {
		c.from[f][t] = link
	}

	if _, ok := c.to[t][f]; !ok {
		c.to[t][f] = link
	}
	return nil
''','''	if _, ok := c.from[f][t]; ok && !copts.Upsert {
		return nil
	}

	c.to[t][f] = link
	c.from[f][t] = link
	return nil
'''),(C,'''	lx := make([]cache.Link, len(index))

	i := 0
	for _, l := range index {
		lx[i] = l
		i++
	}

	return lx, nil
''','''	lx := make([]cache.Link, 0, len(index))

	for k := range index {
		lx = append(lx, index[k])
	}

	return lx, nil
'''))
r("cache-bulk","C06 C12",(C,'''		lx := []cache.Link{}
		from, ok := c.from[uid.String()]
		if !ok {
			continue
		}
		links, err := c.get(ctx, uid, from, opts...)
		if err != nil {
			return nil, err
		}
		lx = append(lx, links...)
		m[uid] = lx
''','''		if from, ok := c.from[uid.String()]; ok {
			links, err := c.get(ctx, uid, from, opts...)
			if err != nil {
				return nil, err
			}
			m[uid] = links
		}
'''),(C,'''	for t := range c.from[id] {
		delete(c.to[t], id)
	}
''','''	for t, l := range c.from[id] {
		_ = l
		if to, ok := c.to[t]; ok {
			delete(to, id)
		}
	}
'''),(C,'''	if from, ok := c.from[uid.String()]; ok {
		return c.get(ctx, uid, from, opts...)
	}

	return []cache.Link{}, nil
''','''	return c.get(ctx, uid, c.from[uid.String()], opts...)
'''))
P="pkg/plan/simple/simple.go"
r("plan","C12",(P,'''	p.mu.Lock()
	defer p.mu.Unlock()
	return p.add(ctx, r, opts...)
''','''	p.mu.Lock()
	err := p.add(ctx, r, opts...)
	p.mu.Unlock()
	return err
'''),(P,'''	res := make([]plan.Resource, len(p.index))

	i := 0
	for _, r := range p.index {
		res[i] = r
		i++
	}
	return res, nil
''','''	var res []plan.Resource
	for _, r := range p.index {
		res = append(res, r)
	}
	return res, nil
'''))
IN="pkg/broker/ingester/simple/ingester.go"
r("ingest","C16",(IN,'''	msg := &broker.Message{
		Type: msgType,
	}

	var err error

	m := ropts.Marshaler
	if m == nil {
		msg.Data, err = json.Marshal(data)
		if err != nil {
			return err
		}
		return b.Pub(ctx, topic, *msg)
	}

	msg.Data, err = m.Marshal(data)
	if err != nil {
		return err
	}

	return b.Pub(ctx, topic, *msg)
''','''	encode := json.Marshal
	if ropts.Marshaler != nil {
		encode = ropts.Marshaler.Marshal
	}

	d, err := encode(data)
	if err != nil {
		return err
	}

	return b.Pub(ctx, topic, broker.Message{Type: msgType, Data: d})
'''))
r("ingest2","C16",(IN,'''	var err error

	m := ropts.Marshaler
	if m == nil {
		msg.Data, err = json.Marshal(data)
		if err != nil {
			return err
		}
		return b.Pub(ctx, topic, *msg)
	}

	msg.Data, err = m.Marshal(data)
	if err != nil {
		return err
	}
''','''	var err error

	if m := ropts.Marshaler; m != nil {
		msg.Data, err = m.Marshal(data)
	} else {
		msg.Data, err = json.Marshal(data)
	}
	if err != nil {
		return err
	}
'''))
DI="pkg/broker/digester/simple/digester.go"
r("digest","C16",(DI,'''	for {
		if err := ctx.Err(); err != nil {
			return err
		}

		if err := sub.Receive(ctx, h); err != nil {
			return err
		}
	}
''','''	var err error
	for err = ctx.Err(); err == nil; err = ctx.Err() {
		if rerr := sub.Receive(ctx, h); rerr != nil {
			return rerr
		}
	}
	return err
'''))
MA="pkg/space/marshal/marshal.go"
r("marshal","C01 C02 C03 C04 C05",(MA,'''	ent := &Object{
		Entity: Entity{
			UID:   e.UID().String(),
			Type:  e.Type(),
			Attrs: a,
		},
		Name:      e.Name(),
		Namespace: e.Namespace(),
	}

	if e.Resource() != nil {
		r, err := ResourceFromSpace(e.Resource())
		if err != nil {
			return nil, err
		}
		ent.Resource = r
	}

	return ent, nil
''','''	var res *Resource
	if r := e.Resource(); r != nil {
		if res, err = ResourceFromSpace(r); err != nil {
			return nil, err
		}
	}

	o := Object{Name: e.Name(), Namespace: e.Namespace(), Resource: res}
	o.UID, o.Type, o.Attrs = e.UID().String(), e.Type(), a

	return &o, nil
'''),(MA,'''	uid := memuid.NewFromString(e.UID)
	a := memattrs.NewFromMap(e.Attrs)

	opts := []entity.Option{
		entity.WithUID(uid),
		entity.WithAttrs(a),
	}

	return entity.New(e.Type, opts...)
''','''	return entity.New(e.Type, entityOptions(e.UID, e.Attrs)...)
'''),(MA,'''// ResourceToSpace''','''func entityOptions(uid string, a map[string]string) []entity.Option {
	return []entity.Option{
		entity.WithAttrs(memattrs.NewFromMap(a)),
		entity.WithUID(memuid.NewFromString(uid)),
	}
}

// ResourceToSpace'''))
AM="pkg/attrs/memory/memory.go"
r("attrs","C01 C02 C03 C05 C18",(AM,'''	keys := make([]string, len(a))

	i := 0
	for key := range a {
		keys[i] = key
		i++
	}

	return keys, nil
''','''	keys := make([]string, 0, len(a))
	for key := range a {
		keys = append(keys, key)
	}

	return keys, nil
'''),(AM,'''			attrs[k], err = a.Get(ctx, k)
			if err != nil {
				return nil, err
			}
''','''			v, err := a.Get(ctx, k)
			if err != nil {
				return nil, err
			}
			attrs[k] = v
'''))
JS="pkg/space/marshal/json/json.go"
r("json","C01 C02 C03 C04",(JS,'''	case space.Entity:
		e, err := marshal.EntityFromSpace(v)
		if err != nil {
			return nil, err
		}
		return json.Marshal(e)
	case space.Link:
		l, err := marshal.LinkFromSpace(v)
		if err != nil {
			return nil, err
		}
		return json.Marshal(l)
''','''	case space.Entity:
		e, err := marshal.EntityFromSpace(v)
		return encode(e, err)
	case space.Link:
		l, err := marshal.LinkFromSpace(v)
		return encode(l, err)
'''),(JS,'''// Unmarshal''','''func encode(x interface{}, err error) ([]byte, error) {
	if err != nil {
		return nil, err
	}
	return json.Marshal(x)
}

// Unmarshal'''),(JS,'''		var r marshal.Resource
		if err := json.Unmarshal(b, &r); err != nil {
			return err
		}
		*x, err = marshal.ResourceToSpace(r)
''','''		r := marshal.Resource{}
		if err = json.Unmarshal(b, &r); err != nil {
			return err
		}
		*x, err = marshal.ResourceToSpace(r)
'''))
NO="pkg/graph/memory/node.go"
r("node","C05 C18",(NO,'''	dotid := nopts.DOTID
	if dotid == "" {
		if dotEnt, ok := e.(graph.DOTEntity); ok {
			dotid = dotEnt.DOTID()
		} else {
			dotid = e.UID().String()
			if dotEnt, ok := e.(graph.DOTer); ok {
				dotid = dotEnt.DOTID()
			}
		}
	}
''','''	dotid := nopts.DOTID
	if dotid == "" {
		dotid = defaultDOTID(e)
	}
'''),(NO,'''// ID returns''','''func defaultDOTID(e graph.Entity) string {
	switch d := e.(type) {
	case graph.DOTEntity:
		return d.DOTID()
	case graph.DOTer:
		return d.DOTID()
	default:
		return e.UID().String()
	}
}

// ID returns'''))
r("runner","C17",("runner.go",'''	sopts := r.opts
	for _, apply := range opts {
		apply(&sopts)
	}

	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
''','''	o := r.opts
	for i := 0; i < len(opts); i++ {
		opts[i](&o)
	}

	sopts := []Option{
		WithStore(o.Store),
		WithBroker(o.Broker),
		WithMarshaler(o.Marshaler),
	}

	return s.Scrape(ctx, p, sopts...)
'''))
r("wg-iter","C07 C08",(WG,'''	graphNodes := gonum.NodesOf(g.WeightedGraphBuilder.Nodes())
	g.mu.RUnlock()

	nodes := make([]graph.Node, len(graphNodes))

	for i, n := range graphNodes {
		nodes[i] = n.(*Node)
	}

	return nodes, nil
''','''	defer g.mu.RUnlock()

	it := g.WeightedGraphBuilder.Nodes()
	nodes := make([]graph.Node, it.Len())

	for i := 0; it.Next(); i++ {
		nodes[i] = it.Node().(*Node)
	}

	return nodes, nil
'''),(WG,'''	graphEdges := gonum.WeightedEdgesOf(wedges)
	g.mu.RUnlock()

	edges := make([]graph.Edge, len(graphEdges))

	for i, e := range graphEdges {
		edges[i] = e.(*Edge)
	}

	return edges, nil
''','''	g.mu.RUnlock()

	edges := make([]graph.Edge, 0, wedges.Len())

	for wedges.Next() {
		e := wedges.WeightedEdge().(*Edge)
		edges = append(edges, e)
	}

	return edges, nil
'''),(WG,'''	graphNodes := gonum.NodesOf(gnodes)

	g.mu.RUnlock()

	nodes := make([]graph.Node, len(graphNodes))

	for i, n := range graphNodes {
		nodes[i] = n.(*Node)
	}

	return nodes, nil
''','''	nodes := make([]graph.Node, gnodes.Len())

	i := 0
	for gnodes.Next() {
		nodes[i] = gnodes.Node().(*Node)
		i++
	}
	g.mu.RUnlock()

	return nodes, nil
'''))
def sh(c,cwd): return subprocess.run(["bash","-c",". /opt/vp/env.sh; "+c],cwd=cwd,capture_output=True,text=True)
only=sys.argv[1:]
for id,props,edits in R:
    if only and id not in only: continue
    subprocess.run(["rm","-rf",W]); subprocess.run(["cp","-a","/repo",W])
    ok=True
    for f,old,new in edits:
        p=os.path.join(W,f); s=open(p).read()
        if s.count(old)!=1: print("!!",id,f,s.count(old),repr(old[:60])); ok=False; break
        open(p,"w").write(s.replace(old,new))
    if not ok: continue
    t=sh("go build ./... && go test ./... 2>&1 | grep -v 'no test files' | grep -v ^ok",W)
    if t.stdout.strip() or t.stderr.strip(): print("!!",id,"build/test",t.stdout[-800:],t.stderr[-800:]); continue
    for p in props:
        t0=time.time()
        q=sh("timeout 900 %s -prop %s -repo %s -contracts /verif/contracts"%(GVC,p,W),"/verif")
        bad=[l[:260] for l in (q.stdout+q.stderr).splitlines() if "FAIL" in l or "UNSUPP" in l or "VACU" in l]
        print("%-14s %s %s %.0fs"%(id,p,"quiet" if q.returncode==0 else "ALARM",time.time()-t0),flush=True)
        for b in bad[:6]: print("     ",b)
subprocess.run(["rm","-rf",W])
