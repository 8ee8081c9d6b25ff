#!/usr/bin/env python3
"""usage: run.py <property id> [--thorough]"""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), 'lib')]
sys.dont_write_bytecode = True
import harness
pid = sys.argv[1]
sys.exit(harness.main(pid, importlib.import_module(pid.lower()).run))
