#!/usr/bin/env python3
"""Prime the build: objects of /repo's sources and of every driver."""
import glob, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, vbuild
GROUP = {}
for f in sorted(glob.glob(lib.VERIF + "/checks/c[0-9][0-9].py")):
    m = __import__(os.path.basename(f)[:-3])
    for name, group in getattr(m, "DRIVERS", {}).items():
        GROUP[name] = group
with vbuild.Lock():
    for name, group in GROUP.items():
        try:
            vbuild.build_exe(name, ["%s/drivers/%s.cc" % (lib.VERIF, name)], (), (), group)
            print("built", name, flush=True)
        except Exception:
            traceback.print_exc()
