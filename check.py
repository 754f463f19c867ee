#!/usr/bin/env python3
import os
import sys

PY = "/opt/venv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
if sys.prefix != "/opt/venv" and not os.environ.get("_DST_REEXEC"):
    os.environ["_DST_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]])
os.chdir(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from dst import driver

sys.exit(driver.main(sys.argv[1:]))
