"""Check driver:  python -m engine.run PROPERTY [--tier quick|thorough]
                  [--only SCENARIO] [-v]"""
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import pkgutil
import random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
logging.disable(logging.CRITICAL)


def load_checks():
    import checks
    from .harness import SCENARIOS
    for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
        importlib.import_module("checks." + m)
    return SCENARIOS


# --------------------------------------------------------------- symbolic
def run_scenario(sc, tier, deadline, conn, seed):
    from . import core, world, harness
    from .core import z3
    res = dict(name=sc.name, status="holds", paths=0, decisions=0,
               queries=0, obligations=0, normalised=0, solver_s=0.0,
               unknown=0, complete=True, detail="", witnesses=[],
               functions=[], fork_queries=0, labels=0)
    t0 = time.time()
    rng = random.Random("%s/%s/%d" % (sc.prop, sc.name, seed))
    backends = {}
    labels = set()

    def body(path):
        sb = harness.SB(path, tier)
        backends[id(path)] = sb
        path._sb = sb
        if res["paths"] < 12 or res["paths"] % 25 == 0:
            world.trace_on()
        else:
            world.trace_off()
        try:
            sc.fn(sb)
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ""
            for f in reversed(tb):
                if f.filename.startswith(world.REPO):
                    where = " at %s:%d" % (os.path.relpath(
                        f.filename, world.REPO), f.lineno)
                    break
            sb.claims.append(("exception %s: %s%s" % (
                type(e).__name__, str(e)[:200], where), "b", core.SFalse))
            sb.exc = traceback.format_exc()
        return sb

    def model_values(sb, model):
        vals = {}
        for n, (k, lo, hi) in sb.inputs.items():
            if k == "b":
                v = model.eval(core.in_bool(n).zb) if model is not None \
                    else None
                if v is not None and z3.is_true(v):
                    vals[n] = True
                elif v is not None and z3.is_false(v):
                    vals[n] = False
                else:
                    vals[n] = rng.random() < 0.5
                continue
            a = core.in_int(n, lo, hi)[1] if k == "i" else \
                core.in_real(n, lo, hi)[1]
            zv = a.z()
            v = model.eval(zv) if model is not None else zv
            try:
                f = core.frac_of_z3(v)
                vals[n] = int(f) if k == "i" else float(f)
            except core.EngineLimit:
                l = -2.0 if lo is None else float(lo)
                h = 2.0 if hi is None else float(hi)
                vals[n] = rng.randint(lo, hi) if k == "i" else \
                    rng.uniform(l, h)
        return vals

    def rand_values(sb, base):
        vals = dict(base)
        near = rng.random() < 0.5       # values of order one
        for n, (k, lo, hi) in sb.inputs.items():
            if k == "r":
                l = -2.0 if lo is None else float(lo)
                h = 2.0 if hi is None else float(hi)
                if near and l < 2 and h > -2:
                    l, h = max(l, -2.0), min(h, 2.0)
                vals[n] = rng.uniform(l, h)
        return vals

    def solve(path, extra, atoms, timeout, congr=False):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.add(*path.pc)
        new = set(atoms) - path.axd
        ax, seen = core.atom_axioms(new)
        if ax:
            s.add(*ax)
        if congr:
            ids = sorted(path.axd | seen)
            by = {}
            for i in ids:
                at = core.ATOMS[i]
                if at.kind in core.NUMF and at.const is None:
                    by.setdefault(at.kind, []).append(at)
            nest = set()
            for at in (a for v in by.values() for a in v):
                for g in at.args:
                    nest |= g.num.atoms() | g.den.atoms()
            ax, _ = core.atom_axioms(nest - path.axd - set(seen))
            s.add(*ax)
            for kd, ats in by.items():
                at0 = {"exp": (0, 1), "cos": (0, 1), "sin": (0, 0),
                       "log": (1, 0), "tan": (0, 0), "atan": (0, 0),
                       "asin": (0, 0), "cosh": (0, 1)}.get(kd)
                for at in ats if at0 else ():
                    s.add(z3.Implies(at.args[0].z() == at0[0],
                                     at.z() == at0[1]))
                for i in range(len(ats)):
                    for j in range(i):
                        eqs = [x.z() == y.z() for x, y in
                               zip(ats[i].args, ats[j].args)]
                        s.add(z3.Implies(z3.And(*eqs),
                                         ats[i].z() == ats[j].z()))
        s.add(extra)
        t = time.time()
        r = s.check()
        res["solver_s"] += time.time() - t
        res["queries"] += 1
        m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            t = time.time()
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", int(timeout))
            s2.add(*s.assertions())
            try:
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            except z3.Z3Exception:
                pass
            res["solver_s"] += time.time() - t
            res["queries"] += 1
        return r, m

    def on_path(path, sb):
        res["paths"] += 1
        res["decisions"] += len(path.trail)
        negs = []       # (label, zneg, atoms, margin)
        trivial = []
        for lab, kind, c in sb.claims:
            labels.add(lab)
            res["obligations"] += 1
            if kind == "b":
                if c.const is True:
                    continue
                if c.const is False:
                    negs.append((lab, z3.BoolVal(True), frozenset(), None))
                else:
                    negs.append((lab, z3.Not(c.zb), c.atoms, None))
            else:
                a, b = c
                e = core.compare(a, b, "==")
                if e.const is True:
                    res["normalised"] += 1
                    if a.den is core.P1 and b.den is core.P1 and \
                            len(a.num.t) <= 40 and len(trivial) < 60:
                        trivial.append(a.num.z() != b.num.z())
                    continue
                d = core.rat_sub(a, b)
                at = d.num.atoms() | d.den.atoms()
                if e.const is False:
                    negs.append((lab, z3.BoolVal(True), frozenset(), None))
                else:
                    mg = None
                    if d.den is core.P1:
                        dz = d.num.z()
                        mg = z3.Or(dz > z3.RealVal("1/10"),
                                   dz < z3.RealVal("-1/10"))
                    negs.append((lab, z3.Not(e.zb), at, mg))
        if trivial:
            # identical normal forms: the solver confirms them in one query
            t = time.time()
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(z3.Or(*trivial))
            r = s.check()
            res["solver_s"] += time.time() - t
            res["queries"] += 1
            if r == z3.sat:
                res["status"] = "error"
                res["detail"] = "normal form disagreement"
                return True
        if not negs:
            if not sb.claims:
                res["detail"] += " path without claims;"
            return witness(path, sb)
        atoms = set()
        for _, _, a, _ in negs:
            atoms |= set(a)
        path.ex.tick()
        zor = z3.Or(*[n[1] for n in negs]) if len(negs) > 1 else negs[0][1]
        to = path.ex.query_timeout_ms
        r, m = solve(path, zor, atoms, to)
        if r == z3.unknown and len(negs) > 1:
            r = z3.unsat
            for n in negs:
                path.ex.tick()
                r1, m1 = solve(path, n[1], n[2], to)
                if r1 == z3.sat:
                    r, m = r1, m1
                    break
                if r1 == z3.unknown:
                    r = z3.unknown
        if r == z3.unsat:
            return witness(path, sb)
        if r == z3.unknown:
            # no verdict; look for a concrete counterexample anyway
            res["unknown"] += 1
            base = model_values(sb, None)
            rr = try_replay(sb, [rand_values(sb, base) for _ in range(20)])
            if rr:
                return found(path, sb, negs, None, rr)
            res["status"] = "undecided"
            res["detail"] = "solver unknown on: " + \
                ", ".join(n[0] for n in negs[:4])
            return False
        # candidate counterexample
        cands = []
        mgs = [n[3] for n in negs if n[3] is not None]
        bad = [n[0] for n in negs if z3.is_true(m.eval(n[1]))] or \
            [negs[0][0]]
        if mgs:
            rm, mm = solve(path, z3.Or(*mgs), atoms, 8000)
            if rm == z3.sat:
                cands.append(model_values(sb, mm))
        cands.append(model_values(sb, m))
        for _ in range(25):
            cands.append(rand_values(sb, cands[0]))
        rr = try_replay(sb, cands)
        if rr:
            return found(path, sb, negs, bad, rr)
        # refine: congruence of the uninterpreted functions
        r, m = solve(path, zor, atoms, to, congr=True)
        if r == z3.unsat:
            return witness(path, sb)
        if r == z3.sat:
            c2 = model_values(sb, m)
            rr = try_replay(sb, [c2] + [rand_values(sb, c2)
                                        for _ in range(60)])
            if rr:
                return found(path, sb, negs, bad, rr)
        res["status"] = "spurious" if r == z3.sat else "undecided"
        res["detail"] = "counterexample did not replay: %s" % ", ".join(
            bad[:4])
        if hasattr(sb, "exc"):
            # an exception that only the symbolic run raises: the construct
            # is outside what the engine encodes
            res["status"] = "limit"
            res["detail"] += "\n" + sb.exc[-1500:]
            return True
        res["nspur"] = res.get("nspur", 0) + (res["status"] == "spurious")
        return res["nspur"] >= 4      # look for one that does replay

    def found(path, sb, negs, bad, rr):
        vals, fails = rr
        res["status"] = "cex"
        res["cex"] = vals
        res["fails"] = fails
        res["labels_sym"] = bad
        res["detail"] = "; ".join(fails[:3])
        return True

    def try_replay(sb, cands):
        out = replay_batch([dict(prop=sc.prop, scenario=sc.name, values=c)
                            for c in cands], tier, stop_on_fail=True)
        for c, o in zip(cands, out):
            if o["status"] == "fail":
                return c, o["failures"]
        return None

    nw = [0]

    def witness(path, sb):
        if nw[0] < 4 and (res["paths"] in (1, 2) or rng.random() < 0.1):
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*path.pc)
            t = time.time()
            r = s.check()
            res["solver_s"] += time.time() - t
            if r == z3.sat:
                v = model_values(sb, s.model())
                # unconstrained reals: generic values rather than zeros
                nw[0] += 1
                res["witnesses"].append(v)
        return False

    try:
        ex = core.Explorer(body, deadline=deadline, **sc.kw)
        world.trace_on()
        import contextlib
        with open(os.devnull, "w") as nul, \
                contextlib.redirect_stdout(nul):
            ex.run(on_path)
        world.trace_off()
        res["complete"] = ex.complete
        if not ex.complete and res["status"] == "holds":
            res["status"] = "undecided"
            res["detail"] = "exploration stopped at its time/path limit " \
                "after %d paths" % res["paths"]
        elif res["paths"] == 0 and res["status"] == "holds":
            res["status"] = "vacuous"
            res["detail"] = "no feasible path"
        elif res["obligations"] == 0 and res["status"] == "holds":
            res["status"] = "vacuous"
            res["detail"] = "no claim reached"
    except core.EngineLimit as e:
        world.trace_off()
        res["status"] = "limit"
        res["detail"] = "not encodable: %s\n%s" % (
            e, "".join(traceback.format_tb(sys.exc_info()[2])[-6:]))
    except core.Deadline:
        world.trace_off()
        res["status"] = "undecided"
        res["complete"] = False
        res["detail"] = "time limit"
    except BaseException as e:
        world.trace_off()
        res["status"] = "error"
        res["detail"] = "%s\n%s" % (e, traceback.format_exc())
    res["labels"] = len(labels)
    res["fork_queries"] = core.STATS.fork_queries
    res["solver_s"] += core.STATS.solver_s
    res["queries"] += core.STATS.fork_queries
    res["functions"] = sorted("%s:%s" % f for f in world.EXECUTED
                              if not f[1].startswith("<module"))
    res["wall_s"] = time.time() - t0
    conn.send(res)
    conn.close()


# --------------------------------------------------------------- replay
def replay_batch(items, tier, stop_on_fail=False):
    """run candidate inputs against the real code in a fresh interpreter"""
    with tempfile.TemporaryDirectory(prefix="vf-replay-") as d:
        p = os.path.join(d, "in.json")
        q = os.path.join(d, "out.json")
        with open(p, "w") as f:
            json.dump(dict(items=items, tier=tier, stop=stop_on_fail), f)
        env = dict(os.environ, PYTHONHASHSEED="0")
        r = subprocess.run([PY, "-m", "engine.replay", p, q], cwd=HERE,
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if not os.path.exists(q):
            raise RuntimeError("replay failed: " + r.stdout.decode()[-2000:])
        with open(q) as f:
            return json.load(f)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-j", type=int, default=int(os.environ.get(
        "VERIF_JOBS", os.cpu_count() or 4)))
    a = ap.parse_args()
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or (600.0 if tier == "quick" else 3000.0)
    t0 = time.time()
    deadline = t0 + budget

    import numpy  # noqa
    import dask.array  # noqa
    import scipy.signal, scipy.special, scipy.linalg, scipy.constants  # noqa
    import scipy.optimize  # noqa
    from . import world
    scs = load_checks().get(a.prop, [])
    scs = [s for s in scs if s.tier == "quick" or tier == "thorough"]
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    if not scs:
        print("no scenarios for", a.prop)
        sys.exit(2)
    from checks import stubs
    world.install(True, stubs.symbolic_stubs())

    ctx = mp.get_context("fork")
    pend = sorted(scs, key=lambda s: -s.kw.get("max_paths", 0))
    running = []
    results = []
    for s in scs:
        s.kw.pop("weight", None)
    while pend or running:
        while pend and len(running) < a.j:
            s = pend.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=run_scenario,
                            args=(s, tier, deadline, wr, seed))
            p.start()
            wr.close()
            running.append((s, p, rd))
        still = []
        for s, p, rd in running:
            if rd.poll(0.02):
                try:
                    r = rd.recv()
                except EOFError:
                    r = dict(name=s.name, status="error",
                             detail="worker died", paths=0, queries=0,
                             solver_s=0, obligations=0, normalised=0,
                             decisions=0, functions=[], witnesses=[],
                             wall_s=0, complete=False, unknown=0)
                p.join()
                results.append((s, r))
                if a.v:
                    print("%-40s %-9s paths=%-5d obl=%-6d norm=%-6d q=%-5d "
                          "solver=%.1fs wall=%.1fs %s" % (
                              r["name"], r["status"], r["paths"],
                              r["obligations"], r["normalised"],
                              r["queries"], r["solver_s"], r["wall_s"],
                              r["detail"][-900:]), flush=True)
            elif time.time() > deadline + 60:
                p.kill()
                results.append((s, dict(
                    name=s.name, status="undecided", detail="killed",
                    paths=0, queries=0, solver_s=0, obligations=0,
                    normalised=0, decisions=0, functions=[], witnesses=[],
                    wall_s=budget, complete=False, unknown=0)))
            else:
                still.append((s, p, rd))
        running = still
        time.sleep(0.01)

    # witnesses: each explored scenario must run, concretely, on real code
    witems = []
    for s, r in results:
        for w in r["witnesses"]:
            witems.append(dict(prop=s.prop, scenario=s.name, values=w))
    wout = replay_batch(witems, tier) if witems else []
    wok = sum(1 for o in wout if o["status"] == "ok")
    wbad = [(i, o) for i, o in zip(witems, wout) if o["status"] == "fail"]

    known = known_findings()
    viol, kn, undec, err = [], [], [], []
    for s, r in results:
        st = r["status"]
        if st == "cex":
            k = next((k for k in known if k["property"] == s.prop and
                      k["scenario"] == s.name and all(
                          any(f.startswith(p) for p in k["claims"])
                          for f in r["fails"])), None)
            if k:
                kn.append((s, r, k))
            else:
                viol.append((s, r))
        elif st in ("limit", "undecided", "spurious", "error"):
            undec.append((s, r))
        elif st == "vacuous":
            err.append((s, r))
    if len(undec) == len(results):      # nothing at all was decided
        err.extend(undec)
    for item, o in wbad:
        if not any(s.name == item["scenario"] for s, r in results
                   if r["status"] == "cex"):
            s = next(s for s, r in results if s.name == item["scenario"])
            viol.append((s, dict(cex=item["values"], fails=o["failures"],
                                 detail="witness run on the real code")))
    # scenarios without a solver verdict: still try the real code concretely
    if undec and not viol:
        items = []
        for s, r in undec:
            for i in range(12):
                items.append(dict(prop=s.prop, scenario=s.name,
                                  values=None, seed=i + seed * 1000))
        out = replay_batch(items, tier)
        for i, o in zip(items, out):
            if o["status"] == "fail" and not any(
                    v[0].name == i["scenario"] for v in viol):
                s = next(s for s, r in undec if s.name == i["scenario"])
                viol.append((s, dict(cex=o["values"], fails=o["failures"],
                                     detail="concrete run (no verdict)")))

    funcs = sorted({f for _, r in results for f in r["functions"]})
    samples = []
    for s, r in results[:6]:
        if r["witnesses"]:
            samples.append(dict(scenario=s.name, inputs=dict(
                list(r["witnesses"][0].items())[:12])))
    cov = dict(
        states=sum(r["paths"] for _, r in results),
        transitions=sum(r["decisions"] for _, r in results),
        traces_validated_against_impl=wok,
        samples=samples,
        obligations=sum(r["obligations"] for _, r in results),
        queries=sum(r["queries"] for _, r in results),
        identities_closed_by_normal_form=sum(r["normalised"]
                                             for _, r in results),
        solver_s=round(sum(r["solver_s"] for _, r in results), 2),
        functions_encoded=funcs,
        scenarios=[dict(name=s.name, bounds=s.bounds, status=r["status"],
                        paths=r["paths"], obligations=r["obligations"],
                        queries=r["queries"], complete=r["complete"],
                        wall_s=round(r["wall_s"], 2)) for s, r in results],
        undecided=[dict(name=s.name, why=r["detail"][:300])
                   for s, r in undec],
        exhaustive=all(r["complete"] and r["status"] == "holds"
                       for _, r in results),
        explanation="states = feasible symbolic paths through the real "
        "source; transitions = solver-decided branch/concretisation "
        "decisions; each path's negated claims were discharged by z3 for all "
        "real values of the inputs; traces_validated = solver models of "
        "explored paths re-run on the real code with numpy floats.")
    ev = dict(property=a.prop, tier=tier, seed=seed, level="model_checking",
              coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=ASSUMPTIONS)
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)
    for s, r, k in kn:
        print("KNOWN-FINDING: property=%s %s" % (s.prop, k["what"]))
    for s, r in undec:
        print("UNDECIDED property=%s scenario=%s %s (%s)" % (
            s.prop, s.name, r["status"], r["detail"].splitlines()[0][:200]
            if r["detail"] else ""))
    rc = 0
    if err:
        for s, r in err:
            print("CHECK-ERROR property=%s scenario=%s %s: %s" % (
                s.prop, s.name, r["status"],
                r["detail"][:80 if a.v else 3000]))
        rc = 2
    if viol:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for s, r in viol:
            p = os.path.join(rd, "%s-%s.json" % (
                s.prop, s.name.replace("/", "_").replace(" ", "_")))
            with open(p, "w") as f:
                json.dump(dict(prop=s.prop, scenario=s.name, tier=tier,
                               values=r["cex"], failures=r["fails"]), f,
                          indent=1)
            print("  scenario %s: %s" % (s.name, "; ".join(r["fails"][:3])))
            print("VIOLATION property=%s replay=%s" % (s.prop, p))
        rc = 1
    print("%s %s: %d scenarios, %d paths, %d obligations, %d queries, "
          "solver %.1fs, wall %.1fs, rc=%d" % (
              a.prop, tier, len(results), cov["states"], cov["obligations"],
              cov["queries"], cov["solver_s"], time.time() - t0, rc))
    sys.exit(rc)


ASSUMPTIONS = [
    "floating point arithmetic is modelled as exact real arithmetic; "
    "rounding, overflow and NaN propagation from input NaNs are outside",
    "sin, cos, exp, log, atan, ... are uninterpreted apart from the listed "
    "identities (sin^2+cos^2=1, exp(a)exp(b)=exp(a+b), sqrt(x)^2=x, ...)",
    "numba-compiled functions are executed from their Python source; "
    "generated_jit/overload specialisation is emulated",
    "array sizes, index ranges and option values are bounded per scenario",
]

if __name__ == "__main__":
    main()
