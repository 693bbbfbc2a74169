package bytes
import bytes bytes
ghost rdata(*bytes.Reader) []byte
extern func NewReader(b) result
  ensures result != nil && fresh(result) && rdata(result) == b
