package broker/digester
import broker broker
func WithHandler(h) result
  props C16
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Handler == h && apply(result, o).Unmarshaler == o.Unmarshaler

func WithMarshaler(m) result
  props C16
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Handler == o.Handler && apply(result, o).Unmarshaler == m

