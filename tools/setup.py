"""setup_cmd: builds the monitors and the probe plugins once, to fail early if the sandbox cannot."""
import os, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import common
try:
    common.build()
    d = common.scratch()
    common.compile_plugins(d)
    shutil.rmtree(d)
except common.Inconclusive as e:
    print(e)
    sys.exit(2)
print("ready")
