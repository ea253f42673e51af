#!/opt/veriftools/pyvenv/bin/python3
"""setup_cmd: nothing is built ahead (every check extracts the code from /repo itself); checks that the tools are there."""
import os, sys, subprocess, json
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")); sys.path.insert(0, H)
import z3
subprocess.run(["clang", "--version"], check=True, stdout=subprocess.DEVNULL)
import check
n = len(check.load_specs())
json.load(open(os.path.join(H, "MANIFEST.json")))
print("z3 %s, %d contracts" % (z3.get_version_string(), n))
