#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and warm the build cache."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

for tool in ("java", "gcc", "g++", "scons"):
    subprocess.run(["which", tool], check=True, stdout=subprocess.DEVNULL)
for f in core.JAVA_CP.split(":"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
for v in core.VARIANTS:
    print(v, core.build_lib(v))
