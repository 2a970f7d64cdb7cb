#!/usr/bin/env python3
"""usage: checks/run.py <property-id>   (decides one property from /repo's current source)"""
import os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True
import report
m = importlib.import_module(sys.argv[1].lower())
sys.exit(report.main(sys.argv[1], m.RULE, m.run))
