"""Build the model-checking runtime and one harness, to show that the tool chain works."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
print(vbuild.build_heap("mmc", "sc_ops", 0))
