"""No operator of the specification may take an operator argument (see the note in spec/fx.qnt)."""
import os
import re
import sys

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
bad = []
for f in sorted(os.listdir(SPEC)):
    if f.endswith(".qnt"):
        for k, line in enumerate(open(os.path.join(SPEC, f)), 1):
            if re.match(r"\s*(pure\s+)?def\s+\w+\(.*=>.*\)\s*:", line.split("//")[0]):
                bad.append("%s:%d: %s" % (f, k, line.strip()))
for b in bad:
    print("higher order operator:", b)
sys.exit(1 if bad else 0)
