"""C06: the tuning history table over every short history and interleaving."""
import itertools
import math

from vf import baton
from vf import tunefix as tf

LEVEL = "model_checking"
RULE = (
    "Every sequence of trial outcomes up to the bound, split over resumed tune() calls, with foreign trials, changed cutoffs and in-memory and "
    "SQLite studies, is run through the real tune() and each returned table is compared cell by cell with the model.  Two (three) workers tuning "
    "the same study are run under a controlled scheduler with a scheduling point before every study-storage access, training and evaluation; all "
    "interleavings up to the preemption bound are executed and every table checked."
)
ASSUMPTIONS = ["Single storage operations of optuna are atomic (optuna's contract); optuna's own bookkeeping is trusted."]
BOUNDS = {"quick": "histories up to 4 trials over 5 outcomes; 2 workers x 1 trial with 2 preemptions; studies of 11..41 trials over 1..3 calls",
          "thorough": "histories up to 5 trials; 2 workers x 2 trials and 3 workers with 2 preemptions, 2 x 1 with 3"}
TECHNIQUE = "stateless model checking of the real tuning code: all trial histories and, under a controlled scheduler, all bounded interleavings of concurrent workers"
OUT = [0, 1, 2, "P", "N"]
FIX = {"none": {}, "new": {"d": "fixed"}, "tuned": {"b": 55}}


def setup():
    from vf.load import install

    install()
    tf.classes()


def learnt(i):
    return [None, {"train_epochs": 3 + i}, {"train_epochs": 510 + i}][i % 3]


def hist_cases(tier):
    def gen():
        for n in range(1, (6 if tier == "thorough" else 5)):
            for s in itertools.product(OUT, repeat=n):
                for k in range(n):
                    yield [s, [n] if k == 0 else [k, n - k], "default", "none", "ndcg", [10, 10], [], False]
        for s in itertools.product(OUT, repeat=3):
            for calls in ([3], [1, 2], [2, 1], [1, 1, 1]):
                for mode in ("default", "custom", "data"):
                    for fx in FIX:
                        for cuts in ([5, 5, 5], [5, 10, 5], [1, 2, 20]):
                            yield [s, calls, mode, fx, "map", cuts, [], False]
        for n in (11, 12, 21, 33, 41):  # long studies
            s = [[0, 1, "P", "N", 2][i * i % 5] for i in range(n)]
            for calls in ([n], [10, n - 10], [1, n - 2, 1]):
                for mode in ("default", "custom"):
                    yield [s, calls, mode, "none", "ndcg", [10] * 3, [], False]
        pres = [["C", 1], ["C", 2], ["F", 0], ["P", 0], ["R", 0]]
        for m in range(1, 4 if tier == "thorough" else 3):
            for pre in itertools.product(pres, repeat=m):
                for s in itertools.product(OUT, repeat=2):
                    for calls in ([2], [1, 1]):
                        yield [s, calls, "default", "none", "ndcg", [10, 10], pre, False]
        for s in itertools.product([0, 1, "P", "N"], repeat=2):
            yield [s, [1, 1], "default", "none", "ndcg", [10, 10], [], True]
    return gen


def nan(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def check_row(ctx, df, num, want, msg):
    ctx.check(list(df.index).count(num) == 1, lambda: f"{msg}: trial {num} has {list(df.index).count(num)} rows")
    row = df.loc[num]
    for k, v in want.items():
        if nan(v):
            ctx.check(k not in df.columns or nan(row[k]) or row[k] is None or str(row[k]) == "nan",
                      lambda: f"{msg}: trial {num} has {k}={row[k]!r}, which it never had")
            continue
        ctx.check(k in df.columns, lambda: f"{msg}: no column {k} (columns {list(df.columns)})")
        got = row[k]
        ctx.check(got == v, lambda: f"{msg}: trial {num}: {k} is {got!r}, expected {v!r}")


def expected(num, outcome, mode, fixed, target, cut, allcuts):
    import optuna  # noqa

    r = dict(a=(num + 1) / 64, b=1 + num)
    if mode != "custom":
        r["c"] = ["x", "y", "z"][num % 3]
        for k in fixed:
            if k in r:
                r[k] = None
    for c in allcuts:
        for m in tf.METRICS:
            r[f"{m}@{c}"] = None
    r["train_epochs"] = None
    if outcome == "P":
        r.update(state="PRUNED")
    else:
        for k, m in enumerate(tf.METRICS):
            r[f"{m}@{cut}"] = 100.0 + k + num * 16
        r[f"{target}@{cut}"] = float("nan") if outcome == "N" else outcome / 8
        r.update(learnt(num) or {})
        if outcome == "N":
            r.update(state="FAIL", value=None)
        else:
            r.update(state="COMPLETE", value=-outcome / 8)
    return r


def run_hist(ctx, case):
    s, calls, mode, fx, target, cuts, pre, sqlite = case
    n0 = len(pre)
    script = [None] * n0 + [(o, learnt(i + n0)) for i, o in enumerate(s)]
    storage = None
    if sqlite:
        import optuna

        storage = optuna.storages.RDBStorage("sqlite:///:memory:", engine_kwargs={"connect_args": {"check_same_thread": False}})
    r = tf.Run(script, calls, mode, FIX[fx], target, None, pre, storage=storage, cutoffs=cuts)
    ctx.step(len(s))
    cut_of = [cuts[k] for k, n in enumerate(calls) for _ in range(n)]
    done = 0
    for k, (n, res) in enumerate(zip(calls, r.results)):
        done += n
        comp = any(p[0] == "C" for p in pre) or any(o not in ("P", "N") for o in s[:done])
        if isinstance(res, Exception):
            if comp:
                raise res
            continue
        df = res[1]
        ctx.eq(sorted(df.index), list(range(n0 + done)), "trial numbers listed")
        for i in range(done):
            check_row(ctx, df, n0 + i, expected(n0 + i, s[i], mode, FIX[fx], target, cut_of[i], cuts[: k + 1]), f"call {k}")
        for i, (kind, v) in enumerate(pre):
            st = {"C": "COMPLETE", "F": "FAIL", "P": "PRUNED", "R": "RUNNING"}[kind]
            w = dict(state=st)
            w.update({f"{m}@{c}": None for m in tf.METRICS for c in cuts})
            if kind != "R":
                w.update(a=0.5 + i / 64, b=20 + i, train_epochs=40 + i if kind == "C" else None)
            if kind == "C":
                w["value"] = -v / 8
            check_row(ctx, df, i, w, f"call {k}")
    ctx.outcome(s, calls, mode, fx, [len(x) if not isinstance(x, Exception) else 0 for x in r.results])


# ------------------------------------------------------------------ odd names, raising trials
ODD = ["params_x", "top_params_k", "user_attrs_y", "n_user_attrs_", "x", "params-x"]


def odd_cases(tier):
    def gen():
        for k in (1, 2, 3):
            for tuned in itertools.combinations(ODD, k):
                for learnt_name in ["train_epochs"] + [n for n in ODD if n not in tuned]:
                    for s in itertools.product([0, 1, "P"], repeat=2):
                        yield [tuned, learnt_name, s]
    return gen


def run_odd(ctx, case):
    """Parameter names that contain the prefixes used by the study's own table."""
    import numpy as np
    import scipy.sparse as sps

    from irspack.optimization import UniformIntegerRange

    tuned, learnt_name, s = case
    c = tf.classes()
    X = sps.csr_matrix(np.eye(2))

    class Rec(c["Rec"], register_class=False):
        default_tune_range = [UniformIntegerRange(n, 100 * i, 100 * i + 50) for i, n in enumerate(tuned)]
        script = [(o, {learnt_name: 7 + i}) for i, o in enumerate(s)]
        built = []

        def __init__(self, X, **kw):
            super().__init__(X)
            self.given = kw

    study = tf.new_study()
    try:
        best, df = Rec.tune(X, c["Eval"](), study=study, n_trials=len(s))
    except ValueError:
        if set(s) == {"P"}:
            return
        raise
    ctx.step(len(s))
    for num, o in enumerate(s):
        w = {n: 100 * i + num for i, n in enumerate(tuned)}
        ctx.eq(Rec.built[num].given, w, "constructor arguments")
        w[learnt_name] = None if o == "P" else 7 + num
        w["ndcg@10"] = None if o == "P" else o / 8
        w["state"] = "PRUNED" if o == "P" else "COMPLETE"
        check_row(ctx, df, num, w, f"parameters {tuned}, learnt {learnt_name}")
    b = min((-o, i) for i, o in enumerate(s) if o != "P")[1]
    ctx.eq(best, {**{n: 100 * i + b for i, n in enumerate(tuned)}, learnt_name: 7 + b}, "best parameters")
    ctx.outcome(case)


def raise_cases(tier):
    def gen():
        for n in range(1, 5 if tier == "thorough" else 4):
            for s in itertools.product([0, 1, "P", "E", "V"], repeat=n):
                yield s
    return gen


def run_raise(ctx, s):
    """Trials whose training (E) or evaluation (V) raises: the call fails, the trial stays listed as failed, resuming goes on."""
    import numpy as np
    import scipy.sparse as sps

    c = tf.classes()
    X = sps.csr_matrix(np.eye(2))

    class Boom(Exception):
        pass

    class Rec(c["Rec"], register_class=False):
        script = [(0 if o in ("E", "V") else o, learnt(i)) for i, o in enumerate(s)]
        built = []

        def learn_with_optimizer(self, evaluator, trial, **k):
            if s[trial.number] == "E":
                raise Boom()
            super().learn_with_optimizer(evaluator, trial, **k)

    class Ev(c["Eval"]):
        def get_score(self, model):
            if s[model.trial_number] == "V":
                raise Boom()
            return super().get_score(model)

    study = tf.new_study()
    for k, o in enumerate(s):
        ctx.step()
        try:
            df = Rec.tune(X, Ev(), study=study, n_trials=1)[1]
            ctx.check(o not in ("E", "V"), "the error of a trial was swallowed")
        except Boom:
            ctx.check(o in ("E", "V"), "unexpected failure")
            continue
        except ValueError:
            if any(x in (0, 1) for x in s[: k + 1]):
                raise
            continue
        ctx.eq(sorted(df.index), list(range(k + 1)), "trial numbers listed")
        for i in range(k + 1):
            w = expected(i, s[i], "default", {}, "ndcg", 10, [10]) if s[i] not in ("E", "V") else expected(i, "P", "default", {}, "ndcg", 10, [10])
            if s[i] in ("E", "V"):
                w.update(state="FAIL", value=None)
            check_row(ctx, df, i, w, f"after call {k}")
    ctx.outcome(s)


# ------------------------------------------------------------------ studies of earlier versions
def legacy_cases(tier):
    def gen():
        for n in range(1, 4 if tier == "thorough" else 3):
            for pre in itertools.product(["none", "5", "10"], repeat=n):
                for order in itertools.permutations(range(n)):
                    for s in itertools.product([0, 1, "P"], repeat=2):
                        yield [pre, order, s]
    return gen


def run_legacy(ctx, case):
    """Earlier versions kept the scores in one list in the study; resuming such a study keeps them next to the trials they belong to."""
    import numpy as np
    import scipy.sparse as sps

    pre, order, s = case
    c = tf.classes()
    optuna = c["optuna"]
    X = sps.csr_matrix(np.eye(2))
    n = len(pre)

    class Rec(c["Rec"], register_class=False):
        script = [None] * n + [(o, learnt(n + i)) for i, o in enumerate(s)]
        built = []

    study = tf.new_study()
    for i in range(n):
        study.add_trial(optuna.trial.create_trial(params={"a": 0.5}, distributions={"a": optuna.distributions.FloatDistribution(0, 1)}, value=-i / 8))
    old = [(i, {f"{m}@{pre[i]}": 1000.0 + 16 * i + k for k, m in enumerate(tf.METRICS)}) for i in order if pre[i] != "none"]
    if old:
        study.set_user_attr("scores", old)
    for k in range(1, len(s) + 1):
        df = Rec.tune(X, c["Eval"](), study=study, n_trials=1)[1]
        ctx.step()
        ctx.eq(sorted(df.index), list(range(n + k)), "trial numbers listed")
        for i in range(n):
            w = dict(a=0.5, value=-i / 8, state="COMPLETE", train_epochs=None)
            for cut in ("5", "10"):
                for j, m in enumerate(tf.METRICS):
                    w[f"{m}@{cut}"] = 1000.0 + 16 * i + j if pre[i] == cut else None
            check_row(ctx, df, i, w, f"call {k}, earlier trial")
        for i in range(k):
            check_row(ctx, df, n + i, expected(n + i, s[i], "default", {}, "ndcg", 10, [10, 5]) | {f"{m}@5": None for m in tf.METRICS}, f"call {k}")
    ctx.outcome(case)


# ------------------------------------------------------------------ workers
def storage_class():
    import optuna

    class SchedStorage(optuna.storages.InMemoryStorage):
        sched = None

    def wrap(name):
        f = getattr(optuna.storages.InMemoryStorage, name)

        def g(self, *a, **k):
            if self.sched is not None:
                self.sched.point(name)
            return f(self, *a, **k)
        return g

    for name in ("create_new_trial", "set_trial_param", "set_trial_state_values", "set_trial_intermediate_value", "set_trial_user_attr",
                 "set_trial_system_attr", "set_study_user_attr", "set_study_system_attr", "get_study_user_attrs", "get_study_system_attrs",
                 "get_all_trials", "get_best_trial"):
        if name in optuna.storages.InMemoryStorage.__dict__ or hasattr(optuna.storages.InMemoryStorage, name):
            setattr(SchedStorage, name, wrap(name))
    return SchedStorage


def worker_cases(tier):
    def gen():
        for script in itertools.product([1, 2, "P"], repeat=2):
            for shared in (False, True):
                yield [script, [1, 1], shared, 3 if tier == "thorough" else 2]
        if tier == "thorough":
            for shared in (False, True):
                yield [[1, 2, 1, "P"], [2, 2], shared, 2]
                yield [[1, 2, 1], [1, 1, 1], shared, 2]
    return gen


def run_workers(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    script, sizes, shared, bound = case
    c = tf.classes()
    optuna = c["optuna"]
    SS = storage_class()
    X = sps.csr_matrix(np.array([[1.0, 0.0], [0.0, 1.0]]))
    full = [(o, learnt(i)) for i, o in enumerate(script)]

    def execute(choices):
        sched = baton.Sched(choices)
        storage = SS()
        study = tf.new_study(storage)
        box = {}

        class Rec(c["Rec"], register_class=False):
            built = []

            def learn_with_optimizer(self, *a, **k):
                sched.point("learn")
                return super().learn_with_optimizer(*a, **k)
        Rec.script = full

        class Ev(c["Eval"]):
            def get_score(self, model):
                sched.point("evaluate")
                return super().get_score(model)

        ev = Ev()

        def load():
            return optuna.load_study(study_name=study.study_name, storage=storage, sampler=c["Sampler"](), pruner=optuna.pruners.NopPruner())

        if shared:
            from irspack.optimization.optimizer import Optimizer

            opt = Optimizer(lambda t: X, lambda t: Rec.default_suggest_parameter(t, {}), {}, ev)
        studies = [load() for _ in sizes]

        def worker(i):
            def f():
                if shared:
                    studies[i].optimize(opt.objective_function(Rec), n_trials=sizes[i])
                else:
                    try:
                        box[i] = Rec.tune(X, ev, study=studies[i], n_trials=sizes[i])
                    except ValueError:  # no completed trial yet
                        box[i] = None
            return f

        storage.sched = sched
        sched.run([worker(i) for i in range(len(sizes))])
        storage.sched = None
        ctx.step()
        ctx.state(len(sched.log))
        for e in sched.errors.values():
            raise e
        if all(o == "P" for o in script):
            return sched.trace
        final = Rec.tune(X, ev, study=load(), n_trials=0)[1]
        ctx.eq(sorted(final.index), list(range(len(script))), "trials listed in the end")
        for i, o in enumerate(script):
            check_row(ctx, final, i, expected(i, o, "default", {}, "ndcg", 10, [10]), f"schedule {choices}")
        for i, r in box.items():
            if r is None:
                continue
            df = r[1]
            ctx.check(df.index.is_unique, "a worker's table repeats a trial")
            for num in df.index:
                if df.loc[num, "state"] == "RUNNING":
                    continue
                check_row(ctx, df, num, expected(num, script[num], "default", {}, "ndcg", 10, [10]), f"schedule {choices}, worker {i}")
        ctx.outcome(script, tuple(x for x in sched.log))
        return sched.trace

    baton.explore(execute, bound)


def families(tier):
    return {"histories": (hist_cases(tier), run_hist), "odd_names": (odd_cases(tier), run_odd), "raising": (raise_cases(tier), run_raise), "legacy": (legacy_cases(tier), run_legacy), "workers": (worker_cases(tier), run_workers)}
