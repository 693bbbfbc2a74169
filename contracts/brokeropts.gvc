package broker
func WithCap(c) result
  props C14
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Cap == c && apply(result, o).Sink == o.Sink && apply(result, o).PubTimeout == o.PubTimeout && apply(result, o).RecvTimeout == o.RecvTimeout

func WithSink(s) result
  props C14
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Cap == o.Cap && apply(result, o).Sink == s && apply(result, o).PubTimeout == o.PubTimeout && apply(result, o).RecvTimeout == o.RecvTimeout

func WithPubTimeout(p) result
  props C14
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Cap == o.Cap && apply(result, o).Sink == o.Sink && apply(result, o).PubTimeout == p && apply(result, o).RecvTimeout == o.RecvTimeout

func WithSubTimeout(s) result
  props C14
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Cap == o.Cap && apply(result, o).Sink == o.Sink && apply(result, o).PubTimeout == o.PubTimeout && apply(result, o).RecvTimeout == s

