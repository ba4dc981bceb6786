"""Builds the instrumented program and the harness tools (checks rebuild on their own anyway)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import glob  # noqa
import vbuild  # noqa

apis = [os.path.basename(p)[:-4] for p in glob.glob(os.path.join(vbuild.VERIF, "harness", "api_*.cpp"))]
print(vbuild.build(["vegapp"] + apis, "asan"))
print(vbuild.tool("meddump"))
