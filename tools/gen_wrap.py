import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import checks
names = dict(c="copy", p="plain", e="eq", o="order")
for v, n, p, d, k, wr, m, caps in checks.wrapped_profiles():
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", f"Wrappers_{p}.cfg"), "w").write(f"""SPECIFICATION Spec
CONSTANTS
  D = {d}
  K = {k}
  NVals = 3
  MoveKind = "{m}"
  Writable = {str(wr).upper()}
  Caps = {{{", ".join('"' + names[c] + '"' for c in caps)}}}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Exclusive AllApart
PROPERTIES Frame
CHECK_DEADLOCK FALSE
""")
