#!/usr/bin/env python3
"""Entry point: check, replay, selftest-determinism.  See DESIGN.md."""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    # Set iteration order must not differ between a run and its replay.
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import runner      # noqa: E402

sys.exit(runner.main())
