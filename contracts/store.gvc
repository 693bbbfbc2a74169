# The in-memory store (C10, C11).
package store/memory
import graph graph
import attrs attrs
import memattrs attrs/memory
import gm graph/memory
import store store
import sm store/memory
import uuid uuid

immutable Memory.uid Memory.g Memory.mu
guard Memory.g by mu deep

monitor Memory m
  moninv m.mu != nil && m.g != nil

fun sn(m *sm.Memory, k string) graph.Node = gnode(m.g, k)
fun se(m *sm.Memory, a string, b string) any = gedge(m.g, a, b)
fun keepNodes(m *sm.Memory) bool = forall k string :: sn(m, k) == old(sn(m, k))
fun keepEdges(m *sm.Memory) bool = forall a, b string :: se(m, a, b) == old(se(m, a, b))

func NewStore(opts) (result, err)
  props C10
  ensures err == nil && result != nil && fresh(result)
  ensures fold(opts).UID != nil ==> result.uid == fold(opts).UID
  ensures fold(opts).UID == nil ==> newUID(result.uid)
  ensures fold(opts).Graph != nil ==> result.g == fold(opts).Graph
  ensures fold(opts).Graph == nil ==> result.g is *gm.WUG && fresh(result.g)

func (m Memory) UID() result
  props C10
  ensures result == m.uid

func (m *Memory) Graph() (result, err)
  props C10
  flag locked
  ensures err == nil && result == m.g

func (m *Memory) Add(ctx, e, opts) err
  props C10
  flag locked
  requires e != nil
  modifies ghost gnode(m.g), ghost gedge(m.g), ghost gfree(m.g)
  ensures err != nil ==> keepNodes(m) && keepEdges(m)
  ensures err == nil ==> isNode(sn(m, e.UID().String())) && (sn(m, e.UID().String()) as *gm.Node).Entity == e
  ensures err == nil ==> if fold(opts).Attrs != nil then (sn(m, e.UID().String()) as *gm.Node).attrs == fold(opts).Attrs else newAttrs((sn(m, e.UID().String()) as *gm.Node).attrs)
  ensures err == nil ==> fold(opts).Upsert || old(sn(m, e.UID().String())) == nil
  ensures err == nil ==> forall k string :: k != e.UID().String() ==> sn(m, k) == old(sn(m, k))
  ensures err == nil ==> forall a, b string :: (se(m, a, b) != nil <==> old(se(m, a, b)) != nil) && (a != e.UID().String() && b != e.UID().String() ==> se(m, a, b) == old(se(m, a, b))) && (se(m, a, b) != nil && (a == e.UID().String() || b == e.UID().String()) ==> kept(se(m, a, b), old(se(m, a, b))))
  ensures err != nil && err != res("NewNode", -1, 1) && err != res("AddNode", -1, 0) ==> err == store.ErrAlreadyExists && old(sn(m, e.UID().String())) != nil && !fold(opts).Upsert
  ensures old(sn(m, e.UID().String())) != nil && !fold(opts).Upsert ==> err == store.ErrAlreadyExists || err != nil && err == res("NewNode", -1, 1)

func (m *Memory) Get(ctx, uid, opts) (result, err)
  props C10
  flag locked
  requires uid != nil
  ensures sn(m, uid.String()) == nil ==> err == store.ErrEntityNotFound && result == nil
  ensures err == nil ==> result == sn(m, uid.String()) && result != nil
  ensures sn(m, uid.String()) != nil ==> err == res("Node", -1, 1)
  ensures err != nil ==> result == nil

func (m *Memory) Delete(ctx, uid, opts) err
  props C10
  flag locked
  requires uid != nil
  modifies ghost gnode(m.g), ghost gedge(m.g), ghost gfree(m.g)
  ensures err == res("RemoveNode", -1, 0)
  ensures err != nil ==> keepNodes(m) && keepEdges(m)
  ensures err == nil ==> forall k string :: sn(m, k) == if k == uid.String() then nil else old(sn(m, k))
  ensures err == nil ==> forall a, b string :: se(m, a, b) == if a == uid.String() || b == uid.String() then nil else old(se(m, a, b))

func (m *Memory) Link(ctx, from, to, opts) err
  props C10
  flag locked
  requires from != nil && to != nil
  modifies ghost gedge(m.g)
  ensures sn(m, from.String()) == nil || sn(m, to.String()) == nil ==> err == store.ErrEntityNotFound
  ensures sn(m, from.String()) != nil && sn(m, to.String()) != nil ==> err == res("Link", -1, 1)
  ensures err != nil ==> keepEdges(m)
  ensures err == nil ==> se(m, from.String(), to.String()) != nil
  ensures err == nil && old(se(m, from.String(), to.String())) != nil ==> se(m, from.String(), to.String()) == old(se(m, from.String(), to.String()))
  ensures err == nil && old(se(m, from.String(), to.String())) == nil ==> isEdge(se(m, from.String(), to.String())) && ends(se(m, from.String(), to.String()), sn(m, from.String()), sn(m, to.String()))
  ensures err == nil && old(se(m, from.String(), to.String())) == nil ==> if fold(opts).Attrs != nil then (se(m, from.String(), to.String()) as *gm.Edge).attrs == fold(opts).Attrs else newAttrs((se(m, from.String(), to.String()) as *gm.Edge).attrs)
  ensures err == nil ==> forall a, b string :: (a != from.String() || b != to.String()) && (gdir(m.g) || a != to.String() || b != from.String()) ==> se(m, a, b) == old(se(m, a, b))

func (m *Memory) Unlink(ctx, from, to, opts) err
  props C10
  flag locked
  requires from != nil && to != nil
  modifies ghost gedge(m.g)
  ensures err == res("Unlink", -1, 0)
  ensures err != nil ==> keepEdges(m)
  ensures err == nil ==> forall a, b string :: se(m, a, b) == if (a == from.String() && b == to.String()) || (!gdir(m.g) && a == to.String() && b == from.String()) then nil else old(se(m, a, b))

func (m *Memory) BulkAdd(ctx, ents, opts) result
  props C11
  flag locked
  requires forall i int :: 0 <= i < len(ents) ==> ents[i] != nil
  loopstep [C11] (Memory).Add(ctx, ents[$i], opts) : len(ents)

func (m *Memory) BulkGet(ctx, uids, opts) (result, err)
  props C11
  flag locked
  requires forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopinv forall i int :: 0 <= i < $i ==> sn(m, uids[i].String()) != nil
  loopinv forall i int :: 0 <= i < $i ==> $dst[i] == sn(m, uids[i].String())
  loopinv len($s) == $i && forall i int :: 0 <= i < $i ==> $s[i] == sn(m, uids[i].String())
  ensures err == nil ==> len(result) == len(uids) && forall i int :: 0 <= i < len(uids) ==> sn(m, uids[i].String()) != nil && result[i] == sn(m, uids[i].String())
  ensures err != nil ==> len(result) == 0 && exists i int :: 0 <= i < len(uids) && (forall j int :: 0 <= j < i ==> sn(m, uids[j].String()) != nil) && (if sn(m, uids[i].String()) == nil then err == store.ErrEntityNotFound else err == res("Node", -1, 1))

func (m *Memory) BulkDelete(ctx, uids, opts) result
  props C11
  flag locked
  requires forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopstep [C11] (Memory).Delete(ctx, uids[$i], opts) : len(uids)

func (m *Memory) BulkLink(ctx, from, uids, opts) result
  props C11
  flag locked
  requires from != nil && forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopstep [C11] (Memory).Link(ctx, from, uids[$i], opts) : len(uids)

func (m *Memory) BulkUnlink(ctx, from, uids, opts) result
  props C11
  flag locked
  requires from != nil && forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopstep [C11] (Memory).Unlink(ctx, from, uids[$i], opts) : len(uids)
