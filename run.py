#!/usr/bin/env python3
"""Single entry point of all checks: run.py PROPERTY [quick|thorough]."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib
import checks

vlib.main(checks.CHECKS)
