package graph
func WithUID(u) result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == u && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == o.Weight && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == o.DOTOptions

func WithDOTID(dotid) result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == dotid && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == o.Weight && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == o.DOTOptions

func WithName(name) result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == o.Weight && apply(result, o).Name == name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == o.DOTOptions

func WithAttrs(a) result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == a && apply(result, o).Weight == o.Weight && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == o.DOTOptions

func WithWeight(w) result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == w && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == o.DOTOptions

func WithUpsert() result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == o.Weight && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> true) && apply(result, o).DOTOptions == o.DOTOptions

func WithNoCache() result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == o.Weight && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> true) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == o.DOTOptions

func WithDOTOptions(do) result
  props C18, C08
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).UID == o.UID && apply(result, o).DOTID == o.DOTID && apply(result, o).Attrs == o.Attrs && apply(result, o).Weight == o.Weight && apply(result, o).Name == o.Name && (apply(result, o).NoCache <==> o.NoCache) && (apply(result, o).Upsert <==> o.Upsert) && apply(result, o).DOTOptions == do

