package broker/handlers
import os os
import bytes bytes
func DumpData(ctx, m) result
  props C16
  ensures calls("Copy") == 1 && arg("Copy", 0, 0) == box(*os.File, os.Stdout) && arg("Copy", 0, 1) is *bytes.Reader && rdata(arg("Copy", 0, 1) as *bytes.Reader) == m.Data
  ensures result == res("Copy", 0, 1)
