#!/usr/bin/env python3
"""Nothing is carried over from setup to a check; this only verifies that the toolchain is there."""
import subprocess, sys
for c in (["java", "-version"], ["g++", "--version"]):
    if subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: sys.exit("missing " + c[0])
print("ok")
