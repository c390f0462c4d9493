#!/usr/bin/env python3
# Nothing has to be prepared: every check builds what it needs. This only verifies that the tools are there.
import shutil, os, sys
for t in ("g++", "java", "bash"):
    if not shutil.which(t): sys.exit("missing tool " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"): sys.exit("missing TLC")
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
