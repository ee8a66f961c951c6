#!/usr/bin/env python3-vt
"""Builds the IR dumper (everything else is rebuilt by each check)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.tool())
