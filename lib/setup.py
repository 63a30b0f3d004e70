#!/usr/bin/env python3-vt
"""Checks that the tools the framework needs are there and that the current tree lowers to IR."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
from symcake import cakeh
w = cakeh.World()
print('z3 %s; %d IR functions' % (z3.get_version_string(), len(w.mod.functions) if hasattr(w, 'mod') and hasattr(w.mod, 'functions') else -1))
