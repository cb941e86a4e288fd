"""Nothing has to be built; check that the tools and the specification are usable."""

import glob
import os
import subprocess
import sys

from . import core

bad = 0
for jar in core.JARS.split(":"):
    if not os.path.exists(jar):
        print("missing", jar)
        bad = 1
for f in sorted(glob.glob(os.path.join(core.SPEC, "*.tla"))):
    p = subprocess.run(
        ["java", "-cp", core.JARS, "tla2sany.SANY", f], cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if p.returncode != 0:
        print(p.stdout)
        bad = 1
p = subprocess.run([core.PY, "-c", "import torch, pywt, numpy"])
bad |= p.returncode
sys.exit(1 if bad else 0)
