package store
func WithUpsert() result
  props C10
  flag inline
  ensures result != nil && forall o Options :: (apply(result, o).Upsert <==> true) && apply(result, o).Graph == o.Graph && apply(result, o).Attrs == o.Attrs

func WithGraph(g) result
  props C10
  flag inline
  ensures result != nil && forall o Options :: (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).Graph == g && apply(result, o).Attrs == o.Attrs

func WithAttrs(a) result
  props C10
  flag inline
  ensures result != nil && forall o Options :: (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).Graph == o.Graph && apply(result, o).Attrs == a

