#!/usr/bin/env python3
"""Builds the workers once (the checks rebuild what changed)."""
import subprocess, sys, os
from check import run_build, NoVerdict
from checks_table import CHECKS
rc = 0
try:
    run_build(CHECKS["C01"]["stages"][0], "setup")
except NoVerdict as e:
    print(e)
    rc = 1
sys.exit(rc)
