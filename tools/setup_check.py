"""setup_cmd: verifies that the tools the checks rely on are present."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3  # noqa

sys.path.append("/opt/venv/lib/python3.12/site-packages")
import lxml, cairocffi, marko, PIL  # noqa

print("z3", z3.get_version_string())
subprocess.run(["/opt/venv/bin/python", "-c", "import lxml, marko"], check=True)
