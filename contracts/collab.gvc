# The broker's collaborators as seen by ingester and digester.
package broker
import broker broker
import context context

ufun recvErr(s broker.Subscriber, e error) bool
ufun ctxErr(c context.Context, e error) bool
# the last receive of the subscription failed
ghost rfailed(broker.Subscriber) bool
# the context has been looked at, and was not done, since the last receive
ghost looked(context.Context) bool

iface Marshaler
method Marshal(v) (data, err)
  flag event Marshal
iface Broker
method Pub(ctx, topic, m, opts) err
  flag event Pub
iface Subscriber
method Receive(ctx, h, opts) err
  flag event Receive
  modifies ghost rfailed(self), ghost looked(ctx)
  ensures rfailed(self) <==> err != nil
  ensures !looked(ctx)
  ensures err != nil ==> recvErr(self, err)
iface context.Context
method Err() err
  modifies ghost looked(self)
  ensures looked(self) <==> err == nil
  ensures err != nil ==> ctxErr(self, err)
