"""Builds the IR reader; each check does the same again when it does not find it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
ir.ensure_irdump()
print('ok')
