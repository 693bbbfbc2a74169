# Link cache: one relation on pairs of UID strings, indexed from both ends (C06).
package cache/memory
import cache cache
import uuid uuid

pure UID String From To Attrs
nonnil UID From To

immutable Links.mu
guard Links.from by mu deep
guard Links.to by mu deep

# the link from f to t
fun has(c *Links, f string, t string) bool = f in c.from && t in c.from[f]
fun lnk(c *Links, f string, t string) cache.Link = c.from[f][t]

monitor Links c
  moninv c.mu != nil && c.from != nil && c.to != nil && c.from != c.to
  moninv forall f string :: f in c.from ==> c.from[f] != nil
  moninv forall t string :: t in c.to ==> c.to[t] != nil
  moninv forall f, g string {: c.from[f], c.from[g] } :: f in c.from && g in c.from && f != g ==> c.from[f] != c.from[g]
  moninv forall f, g string {: c.to[f], c.to[g] } :: f in c.to && g in c.to && f != g ==> c.to[f] != c.to[g]
  moninv forall f, t string {: c.from[f], c.to[t] } :: f in c.from && t in c.to ==> c.from[f] != c.to[t]
  moninv forall f, t string :: has(c, f, t) ==> t in c.to && f in c.to[t] && c.to[t][f] == lnk(c, f, t)
  moninv forall f, t string :: t in c.to && f in c.to[t] ==> has(c, f, t)
  moninv forall f, t string :: has(c, f, t) ==> lnk(c, f, t) != nil && lnk(c, f, t).From().String() == f && lnk(c, f, t).To().String() == t

func NewLinks() (result, err)
  props C06
  ensures err == nil && result != nil && fresh(result)
  ensures forall f, t string :: !has(result, f, t)

func (c *Links) Put(ctx, link, opts) result
  props C06
  flag locked
  requires link != nil
  modifies map(c.from), map(c.to), maps(map[string]cache.Link) m :: (exists k string :: k in c.from && m == c.from[k]) || (exists k string :: k in c.to && m == c.to[k])
  ensures result == nil
  ensures has(c, link.From().String(), link.To().String())
  ensures lnk(c, link.From().String(), link.To().String()) == if fold(opts).Upsert || !old(has(c, link.From().String(), link.To().String())) then link else old(lnk(c, link.From().String(), link.To().String()))
  ensures forall f, t string :: f != link.From().String() || t != link.To().String() ==> (has(c, f, t) <==> old(has(c, f, t))) && (has(c, f, t) ==> lnk(c, f, t) == old(lnk(c, f, t)))

func (c *Links) GetFrom(ctx, uid, opts) (result, err)
  props C06
  flag locked
  requires uid != nil
  ensures err == nil
  ensures forall i int :: 0 <= i < len(result) ==> result[i] != nil && has(c, uid.String(), result[i].To().String()) && lnk(c, uid.String(), result[i].To().String()) == result[i]
  ensures forall t string :: has(c, uid.String(), t) ==> exists i int :: 0 <= i < len(result) && result[i] == lnk(c, uid.String(), t)
  ensures forall i, j int :: 0 <= i < j < len(result) ==> result[i].To().String() != result[j].To().String()

func (c *Links) GetTo(ctx, uid, opts) (result, err)
  props C06
  flag locked
  requires uid != nil
  ensures err == nil
  ensures forall i int :: 0 <= i < len(result) ==> result[i] != nil && has(c, result[i].From().String(), uid.String()) && lnk(c, result[i].From().String(), uid.String()) == result[i]
  ensures forall f string :: has(c, f, uid.String()) ==> exists i int :: 0 <= i < len(result) && result[i] == lnk(c, f, uid.String())
  ensures forall i, j int :: 0 <= i < j < len(result) ==> result[i].From().String() != result[j].From().String()

func (c *Links) Delete(ctx, uid, opts) result
  props C06
  flag locked
  requires uid != nil
  modifies map(c.from), map(c.to), maps(map[string]cache.Link) m :: (exists k string :: k in c.from && m == c.from[k]) || (exists k string :: k in c.to && m == c.to[k])
  ensures result == nil
  ensures forall f, t string :: has(c, f, t) <==> old(has(c, f, t)) && f != uid.String() && t != uid.String()
  ensures forall f, t string :: has(c, f, t) ==> lnk(c, f, t) == old(lnk(c, f, t))

func (c *Links) Clear(ctx, opts) result
  props C06
  flag locked
  modifies Links.from(c), Links.to(c)
  ensures result == nil
  ensures forall f, t string :: !has(c, f, t)

func (c *Links) BulkPut(ctx, links, opts) result
  props C06
  flag locked
  requires forall i int :: 0 <= i < len(links) ==> links[i] != nil
  loopstep [C06] (Links).Put(ctx, links[$i], opts) : len(links)

func (c *Links) BulkDelete(ctx, uids, opts) result
  props C06
  flag locked
  requires forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopstep [C06] (Links).Delete(ctx, uids[$i], opts) : len(uids)

# the list of links from (to) each of the keys is exact: only links, once each, and as many as
# there are (so all of them)
fun onlyFrom(c *Links, k uuid.UID, l []cache.Link) bool = forall i int :: 0 <= i < len(l) ==> l[i] != nil && has(c, k.String(), l[i].To().String()) && lnk(c, k.String(), l[i].To().String()) == l[i]
fun allFrom(c *Links, k uuid.UID, l []cache.Link) bool = len(l) == len(c.from[k.String()])
fun onceFrom(l []cache.Link) bool = forall i, j int :: 0 <= i < j < len(l) ==> l[i].To().String() != l[j].To().String()
fun onlyTo(c *Links, k uuid.UID, l []cache.Link) bool = forall i int :: 0 <= i < len(l) ==> l[i] != nil && has(c, l[i].From().String(), k.String()) && lnk(c, l[i].From().String(), k.String()) == l[i]
fun allTo(c *Links, k uuid.UID, l []cache.Link) bool = len(l) == len(c.to[k.String()])
fun onceTo(l []cache.Link) bool = forall i, j int :: 0 <= i < j < len(l) ==> l[i].From().String() != l[j].From().String()

func (c *Links) BulkGetFrom(ctx, uids, opts) (result, err)
  props C06
  flag locked
  requires forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopinv forall k uuid.UID :: k in $map ==> exists i int :: 0 <= i < $i && k == uids[i]
  loopinv forall i int; t string :: 0 <= i < $i && has(c, uids[i].String(), t) ==> uids[i] in $map
  loopinv forall k uuid.UID :: k in $map ==> onlyFrom(c, k, $map[k])
  loopinv forall k uuid.UID :: k in $map ==> allFrom(c, k, $map[k])
  loopinv forall k uuid.UID :: k in $map ==> onceFrom($map[k])
  ensures err == nil
  ensures forall k uuid.UID :: k in result ==> exists i int :: 0 <= i < len(uids) && k == uids[i]
  ensures forall i int; t string :: 0 <= i < len(uids) && has(c, uids[i].String(), t) ==> uids[i] in result
  ensures forall k uuid.UID :: k in result ==> onlyFrom(c, k, result[k])
  ensures forall k uuid.UID :: k in result ==> allFrom(c, k, result[k])
  ensures forall k uuid.UID :: k in result ==> onceFrom(result[k])

func (c *Links) BulkGetTo(ctx, uids, opts) (result, err)
  props C06
  flag locked
  requires forall i int :: 0 <= i < len(uids) ==> uids[i] != nil
  loopinv forall k uuid.UID :: k in $map ==> exists i int :: 0 <= i < $i && k == uids[i]
  loopinv forall i int; f string :: 0 <= i < $i && has(c, f, uids[i].String()) ==> uids[i] in $map
  loopinv forall k uuid.UID :: k in $map ==> onlyTo(c, k, $map[k])
  loopinv forall k uuid.UID :: k in $map ==> allTo(c, k, $map[k])
  loopinv forall k uuid.UID :: k in $map ==> onceTo($map[k])
  ensures err == nil
  ensures forall k uuid.UID :: k in result ==> exists i int :: 0 <= i < len(uids) && k == uids[i]
  ensures forall i int; f string :: 0 <= i < len(uids) && has(c, f, uids[i].String()) ==> uids[i] in result
  ensures forall k uuid.UID :: k in result ==> onlyTo(c, k, result[k])
  ensures forall k uuid.UID :: k in result ==> allTo(c, k, result[k])
  ensures forall k uuid.UID :: k in result ==> onceTo(result[k])
