#!/usr/bin/env python3
"""Optional warm-up: builds every harness (each check also builds what it needs by itself)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in json.load(open(V + "/checks.json")): subprocess.check_call([sys.executable, V + "/check.py", p, "--build-only"])
