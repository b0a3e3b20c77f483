#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> quick|thorough [--replay FILE] [--seconds S]

Builds the monitors from /repo's working tree, runs them, judges what they recorded, writes
evidence/<ID>.json.  Exit status: 0 the property held on everything explored, 1 violation (with a
VIOLATION line), anything else: no answer (the monitors could not be built or broke)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
