"""Builds the assembler from /repo once, so that checks find it ready, and has TLC parse the specification."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spasm
print(spasm.build())
