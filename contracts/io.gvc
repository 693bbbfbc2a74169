package io
extern func Copy(dst, src) (n, err)
  flag event Copy
