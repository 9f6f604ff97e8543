#!/usr/bin/env python3
"""Builds the conformance harness, and with it /repo's current tree, in both of the configurations the checks use."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
try:
    common.build_harness()
    common.build_harness(["targets"])
except common.ToolError as e:
    sys.exit(str(e))
