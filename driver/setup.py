#!/usr/bin/env python3
"""Builds the harnesses once, so that a broken installation shows early. Each check builds what it needs again."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from message import build_mpi
from program import build_chosen, build_programs
try:
    build_harness()
    build_harness(hooks=True)
    build_mpi()
    build_mpi('mpisim', 'mpireal', 'walkympicli')
    build_programs()
    build_chosen()
except ToolError as e:
    print(e)
    sys.exit(1)
print('harness built')
