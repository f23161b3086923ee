"""Bounded exhaustive exploration on the real code.

A check module defines

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    def setup(): ...                      # imports of the code under test
    def families(tier): {name: (cases, run)}

`cases()` yields every case of a finite space (JSON-able), `run(ctx, case)`
executes the real code on it and compares with the reference model through
`ctx`.  Every case of every family is executed; a failing one is written to a
replay file that `bin/check ID --replay FILE` executes again on its own.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
MAX_REPORT = 5  # violations reported per family


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case lies outside the property's domain."""


class Ctx:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.outcomes = set()

    def step(self, n=1):
        """n executions of the code under test were compared with the model."""
        self.transitions += n

    def state(self, n=1):
        self.states += n

    def outcome(self, *o):
        self.outcomes.add(hashlib.blake2b(repr(o).encode(), digest_size=8).digest())

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, got, want, msg="", key=None):
        if not (got == want):
            raise Violation(f"{msg}: got {got!r}, expected {want!r}", key)

    def raises(self, excs, fn, msg):
        """fn() must raise one of excs."""
        try:
            r = fn()
        except excs:
            return
        raise Violation(f"{msg}: expected an error, got {str(r)[:200]}")


class Infra(BaseException):
    """The check itself cannot run (build problem, ...)."""


def _run_one(run, ctx, case):
    """None, or (message, key)"""
    from .build import BuildError

    try:
        run(ctx, case)
        return None
    except Violation as v:
        return str(v), v.key
    except Skip:
        return None
    except (BuildError, MemoryError, Infra):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/irspack/" in f.filename]
        loc = f" at {os.path.basename(where[-1].filename)}:{where[-1].name}" if where else ""
        last = tb[-1]
        return (
            f"unexpected {type(e).__name__}{loc}: {str(e)[:300]} "
            f"[{os.path.basename(last.filename)}:{last.lineno}]",
            None,
        )


def _worker(modname, tier, shard, nshards, deadline, q, cur):
    import faulthandler
    import signal

    faulthandler.enable()
    # progress bars and the like of the code under test
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.stdout = open(os.devnull, "w")
    try:
        mod = sys.modules[modname]
        # a case that never ends kills its worker, which is reported
        limit = getattr(mod, "CASE_TIMEOUT", 240 if tier == "quick" else 1200)
        res = {}
        famno = -1
        for fam, (cases, run) in mod.families(tier).items():
            ctx = Ctx()
            famno += 1
            n = executed = 0
            bad = []
            samples = []
            cut = False
            key = int(hashlib.sha256(fam.encode()).hexdigest(), 16) % nshards
            for i, case in enumerate(cases()):
                n += 1
                if (i + key) % nshards != shard:
                    continue
                if time.time() > deadline:
                    cut = True
                    break
                executed += 1
                s0 = ctx.states
                cur[2 * shard], cur[2 * shard + 1] = famno, i
                signal.alarm(limit)
                r = _run_one(run, ctx, case)
                signal.alarm(0)
                if ctx.states == s0:
                    ctx.states += 1
                if len(samples) < 1:
                    samples.append(case)
                if r is not None:
                    bad.append((case, r[0], r[1]))
                    if len([b for b in bad]) >= 50:
                        cut = True
                        break
            cut |= getattr(ctx, "cut", False)  # a case that was not explored completely
            res[fam] = dict(
                total=n, executed=executed, bad=bad, samples=samples, cut=cut,
                states=ctx.states, transitions=ctx.transitions, outcomes=ctx.outcomes,
            )
        q.put((shard, res, None))
    except BaseException:
        q.put((shard, None, traceback.format_exc()))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv.pop(0)
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(REPLAYS, exist_ok=True)
    sys.path.insert(0, VERIF)
    modname = f"checks.{pid.lower()}"
    try:
        mod = importlib.import_module(modname)
        mod.setup()
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={pid}: the check could not be set up")
        return 2

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rp = json.load(f)
        _, run = mod.families(rp.get("tier", tier))[rp["family"]]
        r = _run_one(run, Ctx(), rp["case"])
        if r is None:
            print(f"replay of {rp['family']}: property {pid} holds on this case")
            return 0
        print(f"{pid} {rp['family']}: {r[0]}")
        print(f"VIOLATION property={pid} replay={argv[argv.index('--replay') + 1]}")
        return 1

    budget = float(os.environ.get("VF_BUDGET", "600" if tier == "quick" else "6600"))
    deadline = t0 + budget
    n = int(os.environ.get("VF_JOBS", str(min(8, os.cpu_count() or 1))))
    n = getattr(mod, "JOBS", n)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    cur = ctx.RawArray("l", 2 * n)
    procs = [
        ctx.Process(target=_worker, args=(modname, tier, i, n, deadline, q, cur)) for i in range(n)
    ]
    for p in procs:
        p.start()
    got = {}
    errs = []
    crashed = []
    while len(got) + len(errs) + len(crashed) < n:
        try:
            shard, res, err = q.get(timeout=1.0)
            if err:
                errs.append(err)
            else:
                got[shard] = res
        except Exception:
            for i, p in enumerate(procs):
                if p.exitcode not in (None, 0) and i not in got and i not in crashed:
                    crashed.append(i)
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    if errs:
        print(errs[0])
        print(f"ERROR property={pid}: {len(errs)} worker(s) failed")
        return 2

    known = [k for k in load_known() if k["property"] == pid]
    violations = []
    known_hit = {}
    famrep = {}
    states = transitions = executed = 0
    outcomes = set()
    samples = []
    exhaustive = not crashed
    fams = list(mod.families(tier))
    for fam in fams:
        rs = [r[fam] for r in got.values() if fam in r]
        outs = set().union(*[r["outcomes"] for r in rs]) if rs else set()
        ex = sum(r["executed"] for r in rs)
        st = sum(r["states"] for r in rs)
        tr = sum(r["transitions"] for r in rs)
        cut = any(r["cut"] for r in rs)
        exhaustive &= not cut
        famrep[fam] = dict(cases=ex, states=st, transitions=tr, distinct_outcomes=len(outs), complete=not cut)
        executed += ex
        states += st
        transitions += tr
        outcomes |= {(fam, o) for o in outs}
        for r in rs:
            for s in r["samples"][:1]:
                if len(samples) < 12 and not any(x["family"] == fam for x in samples):
                    samples.append(dict(family=fam, case=s))
        nrep = 0
        for r in rs:
            for case, msg, key in r["bad"]:
                kf = next(
                    (k for k in known if k.get("status") == "known" and key is not None and k["key"] == key),
                    None,
                )
                if kf:
                    known_hit.setdefault(kf["key"], kf)
                    continue
                violations.append((fam, case, msg))
                if nrep < MAX_REPORT:
                    nrep += 1
                    h = hashlib.sha256(json.dumps([fam, case], sort_keys=True, default=str).encode()).hexdigest()[:10]
                    rp = os.path.join(REPLAYS, f"{pid}-{fam}-{h}.json")
                    with open(rp, "w") as f:
                        json.dump(dict(property=pid, tier=tier, family=fam, case=case, message=msg), f, indent=1, default=str)
                    print(f"{pid} {fam}: {msg[:600]}")
                    print(f"VIOLATION property={pid} replay={rp}", flush=True)
    for i in crashed:
        violations.append(("crash", i, "worker process died"))
        fam = fams[cur[2 * i]]
        case = next((c for j, c in enumerate(mod.families(tier)[fam][0]()) if j == cur[2 * i + 1]), None)
        rp = os.path.join(REPLAYS, f"{pid}-crash-{i}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, tier=tier, family=fam, case=case, exitcode=procs[i].exitcode), f, default=str)
        how = "did not end" if procs[i].exitcode == -14 else f"killed its process (exit {procs[i].exitcode})"
        print(f"{pid} {fam}: the code under test {how} on case {str(case)[:300]}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
    for k in known:
        if k.get("status") == "known" and k["key"] in known_hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    wall = time.time() - t0
    level = mod.LEVEL
    cov = dict(
        samples=samples, families=famrep, distinct_outcomes=len(outcomes), exhaustive=bool(exhaustive),
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
    )
    if level == "model_checking":
        cov.update(states=states, transitions=transitions, traces_validated_against_impl=executed)
    else:
        cov.update(evaluations=executed, distinct_nontrivial=len(outcomes))
    cov["rule"] = mod.RULE
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for fam, r in famrep.items():
        print(f"  {fam}: {r}")
    print(
        f"{pid} [{tier}] executions={executed} states={states} transitions={transitions} "
        f"distinct_outcomes={len(outcomes)} violations={len(violations)} exhaustive={exhaustive} wall={wall:.1f}s"
    )
    return 1 if violations else 0
