#!/usr/bin/env python3
"""Builds the instrumented driver and programs and the Python modules ahead of the checks (cached by content)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build
build.Build("asan", ("driver",) + tuple(build.PROGRAMS))
build.Build("plain", (), module=True)
print("setup done")
