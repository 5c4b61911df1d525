import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_java()
for m in ("NumTest", "LinalgTest"):
    r = vlib.tlc(m, workers=1)
    print(m, "ok" if r.ok else "FAILED\n" + r.out[-2000:])
    if not r.ok:
        sys.exit(1)
