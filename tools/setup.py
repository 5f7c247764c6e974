#!/usr/bin/python3
"""setup_cmd: nothing to build; verifies that the tools are there."""
import os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import engine
for p in engine.CP.split(":"):
    assert os.path.isfile(p), p
subprocess.run(["java", "-version"], check=True, capture_output=True)
import registry
print("ok:", len(registry.PROPS), "properties")
