#!/usr/bin/env python3
"""Nothing is prebuilt (every check rebuilds its harness from /repo); this only confirms that the tools are there."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["gcc", "--version"], ["java", "-version"]):
    subprocess.run(c, check=True, capture_output=True)
for d in ("build", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    assert os.path.exists(f), f
print("ok")
