"""Nothing is built: checks that the interpreters and solvers are there."""
import subprocess
import sys
import z3
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
subprocess.check_call(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, '/repo'); import rebulk; print('rebulk importable')"])
