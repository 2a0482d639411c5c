"""Builds the MIR dumper once, to show that the toolchain is there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.mirdump())
