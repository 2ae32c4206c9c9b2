#!/usr/bin/env python3
"""offline setup: checks that the tools are there and the specifications parse; everything else is built by the checks"""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "g++", "python3"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing " + t)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok", len(glob.glob(os.path.join(V, "spec", "*.tla"))), "modules")
