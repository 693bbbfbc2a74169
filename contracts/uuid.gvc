package uuid/memory
immutable UID.id

func New() result
  props C02
  ensures result != nil && fresh(result) && result.String() != ""

func NewFromString(s) result
  props C02
  ensures result != nil && fresh(result) && result.String() == s
