"""Re-run one contract clause on the real code with stored arguments."""
from . import check
import importlib
import sys


def main(pid, case, args, before=()):
    from . import jx
    jx.set_float(True)
    mod = importlib.import_module(f"vf.props.{pid.lower()}")
    if before:
        import os
        os.environ["VF_HISTORY"] = "1"
        check.same_temp_names()
    for b in before:
        try:
            mod.CASES[case].check(**b)
        except Exception as e:
            print("  (earlier call raised %s)" % type(e).__name__)
    try:
        msgs = mod.CASES[case].check(**args)
    except Exception as e:
        import traceback
        traceback.print_exc()
        msgs = [f"raised {type(e).__name__}: {e}"]
    if msgs:
        print(f"{pid} {case}: VIOLATED")
        for m in msgs:
            print("  ", m)
        sys.exit(1)
    print(f"{pid} {case}: holds for these arguments")
    sys.exit(0)
