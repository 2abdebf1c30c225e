#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of /repo's current sources by static analysis."""
import sys
sys.dont_write_bytecode = True
from matflow import checks
sys.exit(checks.main(sys.argv[1:]))
