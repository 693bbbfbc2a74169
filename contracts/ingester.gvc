# Ingesting publishes the marshaled data (C16).
package broker/ingester/simple
import broker broker
import ingester broker/ingester
import json encoding/json
immutable Ingester.opts

func NewIngester(opts) (result, err)
  props C16
  ensures err == nil && result != nil && fresh(result)
  ensures result.opts == fold(opts)

fun inForce(in *Ingester, opts []ingester.Option) broker.Marshaler = fold(opts, in.opts).Marshaler

func (in *Ingester) Ingest(ctx, b, topic, msgType, data, opts) result
  props C16
  requires b != nil
  ensures inForce(in, opts) == nil ==> calls("JSONMarshal") == 1 && calls("Marshal") == 0 && arg("JSONMarshal", 0, 0) == data
  ensures inForce(in, opts) != nil ==> calls("JSONMarshal") == 0 && calls("Marshal") == 1 && arg("Marshal", 0, 0) == inForce(in, opts) && arg("Marshal", 0, 1) == data
  ensures calls("JSONMarshal") == 1 && res("JSONMarshal", 0, 1) != nil ==> result == res("JSONMarshal", 0, 1) && calls("Pub") == 0
  ensures calls("Marshal") == 1 && res("Marshal", 0, 1) != nil ==> result == res("Marshal", 0, 1) && calls("Pub") == 0
  ensures calls("JSONMarshal") == 1 && res("JSONMarshal", 0, 1) == nil ==> calls("Pub") == 1 && arg("Pub", 0, 3).Data == res("JSONMarshal", 0, 0)
  ensures calls("Marshal") == 1 && res("Marshal", 0, 1) == nil ==> calls("Pub") == 1 && arg("Pub", 0, 3).Data == res("Marshal", 0, 0)
  ensures calls("Pub") == 1 ==> arg("Pub", 0, 0) == b && arg("Pub", 0, 1) == ctx && arg("Pub", 0, 2) == topic && arg("Pub", 0, 3).Type == msgType && result == res("Pub", 0, 0)
