package cache
func WithUpsert() result
  props C06
  flag inline
  ensures result != nil && forall o Options :: (apply(result, o).Upsert <==> true)

