"""setup_cmd: checks that the tools the checks need are there (everything is interpreted; nothing is compiled ahead)."""
import subprocess
import sys

import os
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/repo/src"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
import z3  # noqa

print("z3", z3.get_version_string())
print(subprocess.run(["/opt/venv/bin/python", "-c", "import vss_tools, yaml, anytree, graphql; print('vss_tools', vss_tools.__file__)"],
                     capture_output=True, text=True).stdout)
