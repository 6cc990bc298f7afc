"""Builds the executor and checks that the toolchain works."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ilv import *
try:
    build()
    print("executor built")
except ToolError as e:
    print(e)
    sys.exit(2)
