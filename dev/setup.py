"""Nothing to build: check that the interpreter can load the analyser."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ffsa.report  # noqa: F401,E402
print("ffsa ready")
