#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs. This only verifies the tools."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
for p in ("/usr/include/eigen3/Eigen/Core", "/usr/include/pcl-1.14/pcl/point_cloud.h", "/usr/include/nanoflann.hpp"):
    if not os.path.exists(p):
        missing.append(p)
print("setup: missing " + ", ".join(missing) if missing else "setup: ok")
sys.exit(1 if missing else 0)
