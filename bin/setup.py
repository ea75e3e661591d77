#!/usr/bin/env python3
"""Setup: verify the toolchain and parse every specification. Checks build what they need themselves."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vp
for t in ("java", "g++", "gcc"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
        print("missing", t); sys.exit(2)
from concurrent.futures import ThreadPoolExecutor
def parse(f):
    return f, subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx512m", "-cp", f"{vp.JAR}:{vp.CM}", "tla2sany.SANY", f], cwd=f"{vp.VERIF}/spec",
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = 0
with ThreadPoolExecutor(4) as ex:
    for f, r in ex.map(parse, sorted(os.path.basename(x) for x in glob.glob(f"{vp.VERIF}/spec/*.tla"))):
        if r.returncode or "***Parse Error***" in r.stdout or "Semantic errors" in r.stdout:
            print(f, "does not parse\n", r.stdout[-1500:]); bad = 1
print("setup ok" if not bad else "setup failed")
sys.exit(2 if bad else 0)
