# Digesting hands every message to the handler in force (C16).
package broker/digester/simple
import broker broker
import digester broker/digester
import handlers broker/handlers
immutable Digester.opts

func NewDigester(opts) (result, err)
  props C16
  ensures err == nil && result != nil && fresh(result)
  ensures result.opts == fold(opts)

func (d *Digester) Digest(ctx, sub, opts) result
  props C16
  requires sub != nil && ctx != nil && !rfailed(sub)
  loopinv !rfailed(sub)
  # where the context is looked at behind the receive
  loopinv $err == nil ==> looked(ctx)
  loopinv $err != nil ==> ctxErr(ctx, $err)
  modifies ghost rfailed(sub), ghost looked(ctx)
  oncall Receive: $self == sub && $ctx == ctx
  oncall Receive: $h == if fold(opts, d.opts).Handler != nil then fold(opts, d.opts).Handler else funcof(handlers, DumpData)
  oncall Receive: !rfailed(sub)
  oncall Receive: looked(ctx)
  ensures result != nil
  ensures recvErr(sub, result) || ctxErr(ctx, result)
  ensures rfailed(sub) ==> recvErr(sub, result)

