# Scrape plan: a map of resources keyed by UID string (C05).
package plan/simple
import plan plan
import uuid uuid

pure UID String Group Version Kind
nonnil UID

immutable Simple.mu
guard Simple.index by mu
monitor Simple p
  moninv p.mu != nil
  moninv p.index != nil
  moninv forall k string :: k in p.index ==> p.index[k] != nil && p.index[k].UID().String() == k

func NewSimple(opts) (result, err)
  props C05
  ensures err == nil && result != nil && fresh(result)
  ensures forall k string :: !(k in result.index)
  ensures len(result.index) == 0

func (p *Simple) Add(ctx, r, opts) result
  props C05
  flag locked
  requires r != nil
  modifies map(p.index)
  ensures result == nil
  ensures r.UID().String() in p.index && p.index[r.UID().String()] == r
  ensures forall k string :: k != r.UID().String() ==> (k in p.index <==> old(k in p.index)) && p.index[k] == old(p.index[k])

func (p *Simple) Get(ctx, uid, opts) (result, err)
  props C05
  flag locked
  requires uid != nil
  ensures uid.String() in p.index ==> err == nil && result == p.index[uid.String()]
  ensures !(uid.String() in p.index) ==> err == plan.ErrResourceNotFound && result == nil

func (p *Simple) GetAll(ctx, opts) (result, err)
  props C05
  flag locked
  ensures err == nil && len(result) == len(p.index)
  ensures forall i int :: 0 <= i < len(result) ==> result[i] != nil && result[i].UID().String() in p.index && p.index[result[i].UID().String()] == result[i]
  ensures forall k string :: k in p.index ==> exists i int :: 0 <= i < len(result) && result[i] == p.index[k]
  ensures forall i, j int :: 0 <= i < j < len(result) ==> result[i].UID().String() != result[j].UID().String()

func (p *Simple) Delete(ctx, uid, opts) result
  props C05
  flag locked
  requires uid != nil
  modifies map(p.index)
  ensures result == nil
  ensures !(uid.String() in p.index)
  ensures forall k string :: k != uid.String() ==> (k in p.index <==> old(k in p.index)) && p.index[k] == old(p.index[k])
