"""Engine self-test: known-true goals are proved, known-false ones are not."""
from . import check  # sets up paths
import sys
from . import terms as tm, prove as pv
from .terms import *
x, y, k = var("x"), var("y"), var("k")
GOOD = [
    ([], eq(mul(add(x, y), add(x, y)), add(mul(x, x), mul(num(2), x, y), mul(y, y)))),
    ([lt(x, y)], lt(sig(x), sig(y))),
    ([lt(ZERO, x)], eq(exp(log(x)), x)),
    ([lt(ZERO, x), le(x, exp(y))], le(log(x), y)),
    ([], and_(lt(ZERO, sig(x)), lt(sig(x), ONE))),
    ([], eq(sub(ONE, sig(x)), sig(neg(x)))),
    ([], eq(diff(sig(mul(k, x)), x), mul(k, sig(mul(k, x)), sub(ONE, sig(mul(k, x)))))),
    ([le(ZERO, x)], eq(mul(sqrt(x), sqrt(x)), x)),
]
BAD = [
    ([], eq(mul(x, y), add(x, y))), ([lt(x, y)], lt(sig(y), sig(x))), ([], lt(sig(x), HALF)),
    ([], eq(sub(ONE, sig(x)), sig(x))), ([], lt(exp(x), ONE)), ([], FALSE),
    ([], eq(ite(lt(x, ZERO), x, y), y)),
]
bad = 0
for h, g in GOOD:
    r = pv.prove(h, g, timeout=5000)
    if not r.ok:
        bad += 1
        print("not proved:", g, r)
for h, g in BAD:
    r = pv.prove(h, g, timeout=3000)
    if r.ok:
        bad += 1
        print("PROVED A FALSE GOAL:", g, r)
print("selftest:", len(GOOD), "true goals,", len(BAD), "false goals,", bad, "errors")
sys.exit(1 if bad else 0)
