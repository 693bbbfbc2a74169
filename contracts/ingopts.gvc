package broker/ingester
import broker broker
func WithMarshaler(m) result
  props C16
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Marshaler == m

