package space/link
import uuid uuid
import attrs attrs

immutable Link.uid Link.from Link.to Link.attrs

func WithUID(u) result
  props C02
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == u && apply(result, o).Attrs == o.Attrs && apply(result, o).Merge == o.Merge

func WithAttrs(a) result
  props C02
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).Attrs == a && apply(result, o).Merge == o.Merge

func WithMerge(d) result
  props C02
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).Attrs == o.Attrs && apply(result, o).Merge == d

func New(from, to, opts) (result, err)
  props C02
  ensures err == nil && result != nil && fresh(result)
  ensures fold(opts).UID != nil ==> result.UID() == fold(opts).UID
  ensures fold(opts).UID == nil ==> newUID(result.UID())
  ensures fold(opts).Attrs != nil ==> result.Attrs() == fold(opts).Attrs
  ensures fold(opts).Attrs == nil ==> newAttrs(result.Attrs())
  ensures result.From() == from && result.To() == to
