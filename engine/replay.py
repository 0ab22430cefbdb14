"""Run scenarios on concrete inputs against the real code.

python -m engine.replay IN.json OUT.json     (batch, used by the checks)
python -m engine.replay FILE                 (show one recorded violation)
"""
import json
import logging
import random
import sys
import traceback
logging.disable(logging.CRITICAL)


def run_one(sc, values, tier, seed=None):
    from .harness import CB, Invalid
    if values is None:
        values = {}
        r = random.Random(seed)

        class V(dict):
            pass
        cb = CB(values, tier)
        # seeded defaults
        cb.real = lambda n, lo=None, hi=None: _draw(cb, r, "r", n, lo, hi)
        cb.int = cb.symint = lambda n, lo, hi: _draw(cb, r, "i", n, lo, hi)
        cb.bool = cb.symbool = lambda n: _draw(cb, r, "b", n, None, None)
    else:
        cb = CB(dict(values), tier)
    try:
        sc.fn(cb)
    except Invalid:
        return dict(status="invalid", failures=[], values=cb.values)
    except Exception as e:
        cb.failures.append("exception %s: %s" % (type(e).__name__,
                                                 str(e)[:200]))
        cb.tb = traceback.format_exc()
    return dict(status="fail" if cb.failures else "ok",
                failures=cb.failures[:20], values=cb.values,
                tb=getattr(cb, "tb", None))


def _draw(cb, r, k, n, lo, hi):
    if n not in cb.values:
        if k == "r":
            cb.values[n] = r.uniform(-2.0 if lo is None else float(lo),
                                     2.0 if hi is None else float(hi))
        elif k == "i":
            cb.values[n] = r.randint(lo, hi)
        else:
            cb.values[n] = r.random() < 0.5
    return cb.values[n]


def main():
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    with open(sys.argv[1]) as f:
        data = json.load(f)
    from . import world
    from .run import load_checks
    scs = load_checks()
    from checks import stubs
    world.install(False, stubs.concrete_stubs())
    if "items" not in data:
        sc = next(s for s in scs[data["prop"]]
                  if s.name == data["scenario"])
        o = run_one(sc, data["values"], data.get("tier", "quick"))
        print(json.dumps(o, indent=1, default=str))
        sys.exit(1 if o["status"] == "fail" else 0)
    out = []
    for it in data["items"]:
        sc = next(s for s in scs[it["prop"]] if s.name == it["scenario"])
        o = run_one(sc, it["values"], data["tier"], it.get("seed"))
        out.append(o)
        if data.get("stop") and o["status"] == "fail":
            break
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, default=float)


if __name__ == "__main__":
    main()
