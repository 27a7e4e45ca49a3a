#!/usr/bin/env python3
"""compiles the TLC operator module and checks that the tools answer"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print("classes in", vlib.classes())
