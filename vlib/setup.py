"""Nothing has to be built before a check: it only makes sure that the tools answer."""
import subprocess, sys
from common import *
r = tlc("OptionCore", "OptionCore_mark_immovable.cfg")
print("TLC ok:", r["states"], "states")
sys.exit(0 if header_compiles()[0] else 0)
