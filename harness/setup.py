"""Compiles the operators of module Rat and tests them against TLA+ integers."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

r = core.tlc("RatTest")
print("RatTest: %d states, exit %s" % (r["generated"], r["code"]))
if r["code"] != 0:
    print(r["out"][-3000:])
    sys.exit(1)
