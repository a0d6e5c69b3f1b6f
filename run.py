#!/usr/bin/env python3
"""python3 run.py C01 [C02 ...]: run the registered check of each property (see MANIFEST.json)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import common

if len(sys.argv) != 2:
    sys.exit("usage: run.py <property>")
pid = sys.argv[1]
common.main_guard(pid, importlib.import_module(pid.lower()).run)
