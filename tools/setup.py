#!/usr/bin/env python3
"""Nothing is compiled: checks that the interpreter, Java and TLC are there and that every specification parses."""
import glob, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(["/opt/venv/bin/python", "-c", "import serial"])
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY"] + sorted(os.path.basename(f) for f in glob.glob(os.path.join(R, "spec", "*.tla"))),
                   cwd=os.path.join(R, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout:
    print(p.stdout[-3000:])
    sys.exit(1)
print("setup ok")
