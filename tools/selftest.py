"""Setup: nothing to build; make sure the interpreter, the libraries and the check modules load."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
for name in sorted(os.listdir(os.path.join(HERE, "lib/vp/checks"))):
    if name.startswith("c") and name.endswith(".py"):
        importlib.import_module("vp.checks." + name[:-3])
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ok")
