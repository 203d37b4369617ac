#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles what it needs from /repo. Verifies the toolchain."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for t in ("g++", "ar"):
    if not shutil.which(t):
        print("missing tool: " + t); ok = False
for f in ("/usr/include/eigen3/Eigen/Dense", "/usr/include/yaml-cpp/yaml.h", "/repo/include/drift/estimator/inekf_estimator.h"):
    if not os.path.exists(f):
        print("missing: " + f); ok = False
os.makedirs(HERE + "/evidence", exist_ok=True)
sys.exit(0 if ok else 1)
