#!/bin/bash
# drv.sh PROP: runs the replay drivers of a property on /repo.
cd /verif && python3 - "$1" <<'P'
import sys, tempfile, importlib.machinery, importlib.util
l=importlib.machinery.SourceFileLoader("check","/verif/check"); s=importlib.util.spec_from_loader("check",l); m=importlib.util.module_from_spec(s); l.exec_module(m)
d=tempfile.mkdtemp()
f,log=m.drive(sys.argv[1], m.env(), d, "quick")
print(log[-3000:]); print("FOUND" if f else "clean")
import shutil; shutil.rmtree(d)
P
