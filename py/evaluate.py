# Runs the real scripts/evaluate.py over the real Python binding.
import json
import os
import runpy
import sys

with open(sys.argv[1], "rb") as f:
    scenario = json.load(f)
script = os.environ["TGX_REPO"] + "/scripts/evaluate.py"
if os.environ.get("SMALL_NUMPY"):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import smallnumpy

    smallnumpy.install()
    missing = smallnumpy.Missing
else:
    sys.path.append("/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2])
    missing = ()
sys.path.insert(0, os.environ["TGX_PYMOD"])
sys.argv = [script] + scenario["args"]
sys.setswitchinterval(scenario["switch"])
try:
    runpy.run_path(script, run_name="__main__")
except missing:
    os._exit(77)
except ImportError as e:
    # a submodule of numpy
    if missing and "numpy" in str(e):
        os._exit(77)
    raise
