"""python3-vt drv.py c01 [args]: build and run one native driver"""
import sys, os, tempfile
import stage, nativeb
sd = stage.stage()
exe = nativeb.build_driver(sd, sys.argv[1])
with tempfile.TemporaryDirectory() as t:
    rc, o, e = nativeb.run_driver(exe, sys.argv[2:], 600, t)
print('rc', rc); print(o[-3000:]); print(e[-2500:])
