#!/usr/bin/env python3
# warms the object cache (each check also builds whatever it needs by itself)
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run([sys.executable, "check.py", "C01", "--build-only"], cwd=V)
sys.exit(r.returncode)
