"""C05: tune() over every short history of trial outcomes."""
import itertools

from vf import tunefix as tf

LEVEL = "model_checking"
RULE = (
    "Every sequence of trial outcomes (score 0..2, pruned, failed by NaN) up to the bound, every way of splitting it over resumed tune() calls, "
    "with default/custom/data-dependent suggestion, fixed and learnt parameters and pre-existing foreign trials, run through the real tune(); the "
    "returned parameters, the constructor calls and the number of trials are compared with the best-completed-trial model."
)
ASSUMPTIONS = ["Studies minimise (as created by the package); optuna's own bookkeeping is trusted.",
               "train_epochs is not at the same time fixed and learnt."]
BOUNDS = {"quick": "histories up to 4 trials over 5 outcomes; 2-trial histories after up to 2 foreign trials; all real recommenders with 3 trials; studies of 11..41 trials with the best trial at 9 positions",
          "thorough": "histories up to 5 trials; 3 foreign trials"}
OUT = [0, 1, 2, "P", "N"]
FIX = {"none": {}, "new": {"d": "fixed"}, "tuned": {"b": 55}, "both": {"b": 55, "d": "fixed"}}


def setup():
    from vf.load import install

    install()
    from vf import fake_jax, fm_stub

    fm_stub.install()
    fake_jax.install()
    tf.classes()
    import irspack.recommenders  # noqa


def hist_cases(tier):
    def gen():
        N = 5 if tier == "thorough" else 4
        for n in range(1, N + 1):
            for s in itertools.product(OUT, repeat=n):
                for k in range(n) if n > 1 else [0]:
                    calls = [n] if k == 0 else [k, n - k]
                    yield [s, calls, "default", "none", "ndcg", 10, []]
        for n in (2, 3):
            for s in itertools.product(OUT, repeat=n):
                for mode in ("default", "custom", "data", "custom-learnt"):
                    for fx in FIX:
                        for target, cut in (("ndcg", 10), ("map", 1), ("hit", 20), ("recall", 5), ("precision", 3)):
                            if n == 3 and (target, cut) not in (("ndcg", 10), ("recall", 5)):
                                continue
                            yield [s, [n], mode, fx, target, cut, []]
        for n in (11, 12, 21, 33, 41):  # long studies: the best trial first, in the middle, last, tied
            for best in (0, 1, 8, 9, 10, 11, n // 2, n - 2, n - 1):
                s = [0 if i % 4 == 3 else "P" if i % 5 == 4 else 1 for i in range(n)]
                s[min(best, n - 1)] = 2
                for calls in ([n], [10, n - 10]):
                    yield [s, calls, ("default", "custom")[best % 2], "none", "ndcg", 10, []]
        pres = [["C", 1], ["C", 2], ["F", 0], ["P", 0], ["R", 0]]
        for m in range(1, 4 if tier == "thorough" else 3):
            for pre in itertools.product(pres, repeat=m):
                for s in itertools.product(OUT, repeat=2):
                    yield [s, [2], "default", "none", "ndcg", 10, pre]
    return gen


def learnt(i, mode):
    return [None, {"train_epochs": 3 + i}, {"train_epochs": 510 + i}][i % 3] if mode != "custom-learnt" else {"train_epochs": 3 + i}


def make(case):
    s, calls, mode, fx, target, cut, pre = case
    n0 = len(pre)
    script = [None] * n0 + [(o, learnt(i + n0, mode)) for i, o in enumerate(s)]
    return tf.Run(script, calls, "custom" if mode == "custom-learnt" else mode, FIX[fx], target, cut, pre,
                  suggested_learnt=(mode == "custom-learnt")), script


def suggested(mode, number):
    a, b, c = (number + 1) / 64, 1 + number, ["x", "y", "z"][number % 3]
    if mode in ("custom", "custom-learnt"):
        r = dict(a=a, b=b)
        if mode == "custom-learnt":
            r["train_epochs"] = 1 + number
        return r
    return dict(a=a, b=b, c=c)


def run_hist(ctx, case):
    s, calls, mode, fx, target, cut, pre = case
    fixed = FIX[fx]
    r, script = make(case)
    ctx.step(len(s))
    built = r.Rec.built
    ctx.eq(len(built), len(s), "number of models trained")
    ctx.eq(len(r.trials), len(s) + len(pre), "number of trials in the study")
    for i, m in enumerate(built):
        num = len(pre) + i
        want = dict(a=-1.0, b=-1, c="none", d="default", train_epochs=-1)
        want.update(suggested(mode, num))
        want.update(fixed)
        ctx.eq(m.kw, want, f"constructor arguments of trial {num}")
        ctx.eq(m.learned, 1, "times the model was trained")
        ctx.eq(m.opts, (31, 7, 4), "early-stopping options reaching the model")
        if mode == "data":
            ctx.check(m.X_given is (r.X2 if num % 2 else r.X), "the suggested training data reach the trial")
        else:
            ctx.check(m.X_given is r.X, "the given training data reach the trial")
    # result of every call
    done = 0
    for n, res in zip(calls, r.results):
        done += n
        comp = []
        for num in range(len(pre) + done):
            if num < len(pre):
                k, v = pre[num]
                if k == "C":
                    comp.append((v, num))
            elif script[num][0] not in ("P", "N"):
                comp.append((script[num][0], num))
        if not comp:
            ctx.check(isinstance(res, Exception), f"a result although no trial was completed: {res}")
            continue
        if isinstance(res, Exception):
            raise res
        best = min((-v, num) for v, num in comp)[1]
        if best < len(pre):
            want = dict(a=0.5 + best / 64, b=20 + best, train_epochs=40 + best)
        else:
            want = {k: v for k, v in suggested(mode, best).items() if k not in fixed}
            want.update(script[best][1] or {})
        got = res[0]
        ctx.check(got == want and all(type(got[k]) is type(want[k]) for k in want),
                  lambda: f"best parameters: got {got}, expected those of trial {best}: {want} (history {s}, foreign {pre}, fixed {fixed})")
        if best >= len(pre):
            m = r.Rec(r.X, **got, **fixed)
            full = dict(built[best - len(pre)].kw)
            full.update(script[best][1] or {})
            ctx.eq(m.kw, full, "model built from the result and the fixed parameters")
            r.Rec.built.pop()
    ctx.outcome(s, mode, fx, [str(x)[:0] if isinstance(x, Exception) else sorted(x[0].items()) for x in r.results])


# ------------------------------------------------------------------ real recommenders
def real_cases(tier):
    import irspack.recommenders as R

    names = [n for n in R.__all__ if n.endswith("Recommender") and not n.startswith("Base")]

    def gen():
        for n in sorted(set(names)):
            for seed in (0, 1):
                for fixed in (False, True):
                    yield [n, seed, fixed]
    return gen


def run_real(ctx, case):
    import warnings

    import numpy as np
    import scipy.sparse as sps

    import irspack.recommenders as R
    from irspack.evaluation import Evaluator

    name, seed, use_fixed = case
    cls = getattr(R, name)
    rng = np.random.RandomState(7)
    X = sps.csr_matrix((rng.rand(14, 9) < 0.4).astype(float) * rng.randint(1, 3, size=(14, 9)))
    Y = sps.csr_matrix(((rng.rand(14, 9) < 0.3) & (X.toarray() == 0)).astype(float))
    ev = Evaluator(Y, cutoff=4, n_threads=1)
    fixed = {}
    if use_fixed:
        rs = [p for p in getattr(cls, "default_tune_range", [])]
        if not rs:
            from vf.harness import Skip

            raise Skip()
        p = rs[-1]
        fixed = {p.name: p.choices[0] if hasattr(p, "choices") else (p.high if isinstance(p.high, int) else p.low + (p.high - p.low) / 2)}
        if p.name == "n_components":
            fixed = {p.name: 4}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        best, df = cls.tune(X, ev, n_trials=3, tuning_random_seed=seed, max_epoch=4, validate_epoch=1, score_degradation_max=2, **fixed)
        ctx.step(3)
        ctx.check(not (set(best) & set(fixed)), f"{name}: fixed parameters {set(fixed)} in the result {best}")
        ctx.eq(len(df), 3, f"{name}: number of trials")
        m = cls(X, **best, **fixed).learn()
        got = ev.get_score(m)["ndcg"]
    want = -df["value"].min()
    ctx.check(abs(got - want) < 1e-9, f"{name}: the returned parameters {best} give {got}, the best trial had {want}")
    ctx.outcome(name, seed, use_fixed, sorted(best))


# ------------------------------------------------------------------ calls without data
def nodata_cases(tier):
    def gen():
        for mode in ("default", "suggest"):
            for n in (0, 1, 3):
                for given in (False, True):
                    yield [mode, n, given]
    return gen


def run_nodata(ctx, case):
    """tune() without a matrix and without a function that suggests one is refused before any trial starts."""
    mode, n, given = case
    c = tf.classes()

    class Rec(c["Rec"], register_class=False):
        script = [(0, None)] * 4
        built = []

    study = tf.new_study() if given else None
    kw = dict(parameter_suggest_function=lambda t: {}) if mode == "suggest" else {}
    ctx.step()
    ctx.raises(ValueError, lambda: Rec.tune(None, c["Eval"](), study=study, n_trials=n, **kw), "tune without data")
    ctx.check(not Rec.built, "a model was built without data")
    if study is not None:
        ctx.eq(len(study.trials), 0, "trials in the study")
    ctx.outcome(case)


def families(tier):
    return {"no_data": (nodata_cases(tier), run_nodata), "histories": (hist_cases(tier), run_hist), "real_models": (real_cases(tier), run_real)}
