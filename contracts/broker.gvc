# The in-memory broker (C13, C14, C15).
package broker/memory
import broker broker
import context context
import memory broker/memory

pure Done
immutable Memory.size Memory.pubTimeout
immutable Subscriber.id Subscriber.topic Subscriber.queue Subscriber.ctl Subscriber.exit
guard Memory.connected by RWMutex
guard Memory.subs by RWMutex
guard Memory.topics by RWMutex
guard Memory.exit by RWMutex
guard Memory.ctl by RWMutex
guard Subscriber.active by RWMutex
open queue.msg
open Memory.ctl

monitor Memory m
  moninv [C13] m.subs != nil && m.topics != nil && m.size >= 0
  moninv [C13] m.connected ==> m.exit != nil && !closed(m.exit) && m.ctl != nil && isrole(m.ctl, "Memory.ctl")
  moninv [C13] !m.connected ==> (forall t string :: !(t in m.topics)) && (forall t string :: !(t in m.subs))
  moninv [C13] forall t string :: t in m.topics ==> m.topics[t].exit == m.exit
  moninv [C13] m.exit != nil ==> isrole(m.exit, "Memory.exit")
  moninv [C14] forall t string :: t in m.topics ==> m.topics[t].msg != nil && isrole(m.topics[t].msg, "queue.msg")
  moninv [C14] forall t, u string :: (t in m.topics) && (u in m.topics) && t != u ==> m.topics[t].msg != m.topics[u].msg

  moninv [C15] forall t string :: t in m.subs ==> m.subs[t] != nil
  moninv [C15] forall t, u string :: (t in m.subs) && (u in m.subs) && t != u ==> m.subs[t] != m.subs[u]

monitor Subscriber s
  moninv [C15] s.exit != nil && isrole(s.exit, "Subscriber.exit") && (s.active ==> !closed(s.exit))
  moninv [C15] s.ctl != nil && isrole(s.ctl, "Memory.ctl")

fun ended(m *Memory) bool = !m.connected && (forall t string :: !(t in m.topics)) && (forall t string :: !(t in m.subs))
# the only change to the topics: this one has been made if it was not there
fun topicMade(m *Memory, t string) bool = (t in m.topics) && (old(t in m.topics) ==> m.topics[t] == old(m.topics[t])) && (!old(t in m.topics) ==> fresh(m.topics[t].msg) && chancap(m.topics[t].msg) == m.size && m.topics[t].exit == m.exit)
fun otherTopics(m *Memory, t string) bool = forall u string :: u != t ==> (u in m.topics <==> old(u in m.topics)) && ((u in m.topics) ==> m.topics[u] == old(m.topics[u]))
fun sameTopics(m *Memory) bool = forall u string :: (u in m.topics <==> old(u in m.topics)) && ((u in m.topics) ==> m.topics[u] == old(m.topics[u]))
fun sameSubs(m *Memory) bool = forall t string :: (t in m.subs <==> old(t in m.subs)) && ((t in m.subs) ==> forall i string :: (i in m.subs[t] <==> old(i in m.subs[t])) && ((i in m.subs[t]) ==> m.subs[t][i] == old(m.subs[t][i])))
# what an unsubscription does: the one subscription is gone, the others stay
fun subGone(m *Memory, x sub) bool = forall t string :: (t in m.subs <==> old(t in m.subs)) && ((t in m.subs) ==> forall i string :: (i in m.subs[t] <==> old(i in m.subs[t]) && !(t == x.topic && i == x.id)) && ((i in m.subs[t]) ==> m.subs[t][i] == old(m.subs[t][i])))
fun sameSession(m *Memory) bool = (m.connected <==> old(m.connected)) && m.exit == old(m.exit) && m.ctl == old(m.ctl)

func New(opts) (result, err)
  props C13
  ensures err == nil && result != nil && fresh(result)
  ensures ended(result)
  ensures [C14] result.size == if fold(opts).Cap < 0 then DefaultSize else fold(opts).Cap
  ensures [C14] result.pubTimeout == if fold(opts).PubTimeout == 0 then DefaultTimeout else fold(opts).PubTimeout

func (m *Memory) Open(ctx, opts) result
  props C13
  flag locked
  requires ctx != nil
  modifies Memory.connected(m), Memory.exit(m), Memory.ctl(m), Memory.topics(m), Memory.subs(m), ghost closed
  ensures result == nil && m.connected
  ensures old(m.connected) ==> sameSession(m) && sameTopics(m) && sameSubs(m) && calls("go") == 0
  ensures !old(m.connected) ==> fresh(m.exit) && fresh(m.ctl) && calls("go") == 1
  ensures !old(m.connected) ==> (forall t string :: !(t in m.topics)) && (forall t string :: !(t in m.subs))
  oncall close: $ch == atgo(m.exit)
  gorelease [C15] sameSession(m) ==> sameSubs(m) || (calls("recv") > 0 && arg("recv", -1, 0) == atgo(m.ctl) && subGone(m, arg("recv", -1, 1) as sub))
  gorelease [C15] calls("recv") > 0 && arg("recv", -1, 0) == atgo(m.ctl) ==> sameSession(m) && subGone(m, arg("recv", -1, 1) as sub)
  gostep [C15] calls("recv") == 1 && calls("release") == 1
  goexit calls("recv") > 0 && (arg("recv", -1, 0) == atgo(m.exit) || arg("recv", -1, 0) == ctx.Done())
  goexit arg("recv", -1, 0) == ctx.Done() ==> m.exit != atgo(m.exit) || !m.connected
  gorelease [C13] (sameSession(m) && sameTopics(m)) || (ended(m) && old(m.exit) == atgo(m.exit))

func (m *Memory) Close() result
  props C13
  flag locked
  modifies Memory.connected(m), Memory.exit(m), Memory.ctl(m), Memory.topics(m), Memory.subs(m), map(m.topics), map(m.subs), maps(map[string]*Subscriber) x :: true, ghost closed
  ensures result == nil && ended(m)
  ensures old(m.connected) ==> closed(old(m.exit))
  oncall close: $ch == old(m.exit)

func (m *Memory) Pub(ctx, topic, msg, opts) result
  props C14
  flag locked
  requires ctx != nil
  modifies Memory.connected(m), Memory.exit(m), Memory.ctl(m), Memory.topics(m), Memory.subs(m), map(m.topics), map(m.subs), maps(map[string]*Subscriber) x :: true, ghost closed
  onrelease calls("recv") == 0 ==> sameSession(m) && sameSubs(m)
  onrelease calls("recv") == 0 && !old(m.connected) ==> sameTopics(m)
  onrelease calls("recv") == 0 && old(m.connected) ==> topicMade(m, topic) && otherTopics(m, topic)
  oncall [C13] close: $ch == released(m.exit) && calls("recv") == 1 && arg("recv", 0, 0) == ctx.Done()
  ensures [C13, C14] !released(m.connected) ==> result == broker.ErrNotConnected && calls("recv") == 0 && calls("send") == 0
  ensures released(m.connected) ==> calls("recv") + calls("send") == 1
  ensures calls("send") == 1 ==> arg("send", 0, 0) == released(m.topics[topic].msg) && arg("send", 0, 1) == msg && result == nil
  ensures calls("send") == 0 && calls("recv") == 1 ==> (arg("recv", 0, 0) == ctx.Done() && result == nil) || (arg("recv", 0, 0) == released(m.exit) && result == nil) || (istimer(arg("recv", 0, 0)) && result == broker.ErrTimeout && timerof(arg("recv", 0, 0)) == if fold(opts).PubTimeout == 0 then m.pubTimeout else fold(opts).PubTimeout)

func (m *Memory) Sub(ctx, topic, opts) (result, err)
  props C14
  flag locked
  modifies map(m.topics), map(m.subs), maps(map[string]*Subscriber) x :: true
  ensures [C13] !old(m.connected) ==> err == broker.ErrNotConnected && result == nil && sameTopics(m) && sameSubs(m)
  ensures [C13] old(m.connected) ==> err == nil
  ensures sameSession(m)
  ensures old(m.connected) ==> topicMade(m, topic) && otherTopics(m, topic)
  ensures old(m.connected) ==> (result is *Subscriber) && fresh(result as *Subscriber) && (result as *Subscriber).queue == m.topics[topic]
  ensures [C15] old(m.connected) ==> (result as *Subscriber).topic == topic && (result as *Subscriber).id != "" && (result as *Subscriber).active
  ensures [C15] old(m.connected) ==> (result as *Subscriber).ctl == m.ctl && fresh((result as *Subscriber).exit) && !closed((result as *Subscriber).exit)
  ensures [C15] old(m.connected) ==> (topic in m.subs) && ((result as *Subscriber).id in m.subs[topic]) && m.subs[topic][(result as *Subscriber).id] == (result as *Subscriber)
  ensures old(m.connected) ==> forall t string :: t != topic ==> (t in m.subs <==> old(t in m.subs)) && ((t in m.subs) ==> forall i string :: (i in m.subs[t] <==> old(i in m.subs[t])) && ((i in m.subs[t]) ==> m.subs[t][i] == old(m.subs[t][i])))
  ensures old(m.connected) ==> forall i string :: i != (result as *Subscriber).id ==> (i in m.subs[topic] <==> old((topic in m.subs) && (i in m.subs[topic]))) && ((i in m.subs[topic]) ==> m.subs[topic][i] == old(m.subs[topic][i]))

func (s *Subscriber) ID(ctx) (result, err)
  props C15
  ensures err == nil && result == s.id

func (s *Subscriber) Topic(ctx, opts) (result, err)
  props C15
  ensures err == nil && result == s.topic

func (s *Subscriber) Unsubscribe(ctx, opts) result
  props C15
  flag locked
  modifies Subscriber.active(s), ghost closed
  ensures result == nil && !s.active
  ensures old(s.active) ==> closed(s.exit) && calls("go") == 1
  ensures !old(s.active) ==> calls("go") == 0 && calls("close") == 0
  oncall close: $ch == s.exit
  oncall send: $ch == s.ctl && $v.id == s.id && $v.topic == s.topic

iface broker.Handler
method call(ctx, m) err
  flag event Handle

func (s *Subscriber) Receive(ctx, h, opts) result
  props C14
  flag locked
  requires ctx != nil && h != nil
  modifies ghost closed
  ensures [C15] !released(s.active) ==> result == broker.ErrSubscriptionInactive && calls("recv") == 0 && calls("Handle") == 0
  ensures released(s.active) ==> 1 <= calls("recv") && calls("recv") <= 2 && calls("send") == 0 && calls("Handle") <= 1
  # any message taken is the only one, and the handler gets it, unless the receive timed out
  ensures calls("recv") == 2 ==> istimer(arg("recv", 0, 0)) && arg("recv", 1, 0) == s.queue.msg
  ensures calls("Handle") == 1 ==> calls("recv") == 1 && arg("recv", 0, 0) == s.queue.msg && arg("Handle", 0, 0) == h && arg("Handle", 0, 1) == ctx && arg("Handle", 0, 2) == arg("recv", 0, 1) && result == res("Handle", 0, 0)
  ensures calls("Handle") == 0 && calls("recv") >= 1 ==> (arg("recv", 0, 0) == ctx.Done() && result == nil) || (arg("recv", 0, 0) == s.queue.exit && result == nil) || (arg("recv", 0, 0) == s.exit && result == nil) || (istimer(arg("recv", 0, 0)) && result == broker.ErrTimeout && timerof(arg("recv", 0, 0)) == if fold(opts).RecvTimeout == 0 then DefaultTimeout else fold(opts).RecvTimeout)
