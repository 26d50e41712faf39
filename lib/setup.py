"""setup_cmd: build the harness and parse the specifications once."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tools

tools.build_harness()
for m in sorted(os.listdir(tools.SPEC)):
    if m.endswith(".tla"):
        r = subprocess.run(["java", "-cp", tools.JARS, "tla2sany.SANY", m], cwd=tools.SPEC, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            print(r.stdout)
            sys.exit(1)
print("ok")
