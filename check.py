#!/opt/venv/bin/python -B
"""check.py <property>: decide one property on the current tree of /repo (VERIF_SEED, VERIF_TIER)."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

import common  # noqa: E402
from common import Report, Violation, MachineryError, Hang  # noqa: E402


def main():
    prop = sys.argv[1]
    import registry
    report = Report(prop)
    try:
        try:
            common.padasip()
        except MachineryError:
            raise
        except Exception as ex:
            raise Violation("padasip cannot be imported: %s: %s" % (type(ex).__name__, ex))
        registry.CHECKS[prop](report)
    except Violation as v:
        report.violation(v)
        return 1
    except MachineryError as ex:
        print("MACHINERY ERROR", ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    report.ok()
    return 0


if __name__ == "__main__":
    sys.exit(main())
