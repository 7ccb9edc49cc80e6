#!/usr/bin/env python3
"""check.py <property id> [--quick|--thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vlib  # noqa: E402

pid = sys.argv[1]
mod = importlib.import_module("c_" + pid.lower())
sys.exit(vlib.main(pid, mod.check, level=getattr(mod, "LEVEL", "model_checking")))
