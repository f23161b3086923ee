"""C08: parameter ranges and default suggestions."""
import itertools
import math
import os
import signal
import time

LEVEL = "model_checking"
RULE = (
    "Every string over a small alphabet (letters, digits, separators, newline, punctuation, a non-ASCII letter) up to the bound is offered as a "
    "parameter name to every range class; every bound/step/scale combination of a grid is constructed and its suggestion made at every extreme value "
    "through real optuna trials; for every recommender every subset of fixed parameters and every corner of the search space is suggested and, for "
    "the corners, constructed and trained.  Long names run in a child process with a time limit."
)
ASSUMPTIONS = ["Names are ASCII or contain a non-ASCII letter; other Unicode digits are outside the checked alphabet."]
BOUNDS = {"quick": "names up to 4 characters over 9 symbols; bounds in a 6x6 grid; all subsets of fixed parameters; all corners",
          "thorough": "names up to 5 characters; 8x8 grid"}
ALPH = ["a", "Z", "0", "_", "-", "@", "\n", " ", "é"]
GRID = [-2, 0, 1, 2, 3, 10]


def setup():
    from vf.load import install

    install()
    from vf import fm_stub

    fm_stub.install()
    from vf import fake_jax

    fake_jax.install()
    import optuna

    optuna.logging.set_verbosity(optuna.logging.ERROR)
    import irspack.recommenders  # noqa


def ok_name(s):
    import string

    al = string.ascii_letters + string.digits
    return len(s) > 0 and s[0] in al and all(c in al + "_-" for c in s)


def makers():
    import irspack.optimization as O

    return {
        "uf": lambda n: O.UniformFloatRange(n, 0.5, 1.5), "lf": lambda n: O.LogUniformFloatRange(n, 0.5, 1.5),
        "ui": lambda n: O.UniformIntegerRange(n, 1, 3), "li": lambda n: O.LogUniformIntegerRange(n, 1, 3),
        "cat": lambda n: O.CategoricalRange(n, ["p", "q"]),
    }


def name_cases(tier):
    def gen():
        for n in range(0, (6 if tier == "thorough" else 5)):
            for s in itertools.product(ALPH, repeat=n):
                yield "".join(s)
        for s in ("n_components", "a-b_c", "a.b", "a b", "-", "_x", "a/b", "a\0", "ndcg@10", "a\r", "a:", "a[", "A^", "a`", "a{", "/", ":", "a,", "a\u2028", "\na", "a\nb", "a\n\n"):
            yield s
    return gen


def run_name(ctx, s):
    for k, mk in makers().items():
        ctx.step()
        try:
            r = mk(s)
            got = True
        except ValueError:
            got = False
        ctx.check(got == ok_name(s), lambda: f"{k}: name {s!r} is {'accepted' if got else 'rejected'}")
        if got:
            ctx.eq(r.name, s, "stored name")
    ctx.outcome(ok_name(s), len(s))


def long_cases(tier):
    def gen():
        for unit in ("a", "a-", "a_", "a1", "aa-", "-", "a--", "9_-"):
            for n in (30, 200, 4000):
                for tail in ("", "!", "@", "\n", "é"):
                    yield [unit, n, tail]
    return gen


def run_long(ctx, case):
    unit, n, tail = case
    s = unit * n + tail
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            makers()["uf"](s)
            code = 0
        except ValueError:
            code = 1
        finally:
            os._exit(code)
    end = time.time() + 20
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            ctx.fail(f"checking the name {unit!r}*{n}+{tail!r} did not finish within 20 s")
        time.sleep(0.002)
    ctx.step()
    ctx.eq(os.WEXITSTATUS(st), 0 if ok_name(s) else 1, f"name {unit!r}*{n}+{tail!r} (0 accepted, 1 rejected)")
    ctx.outcome(case)


def range_cases(tier):
    g = GRID + ([-7, 64] if tier == "thorough" else [])

    def gen():
        for lo, hi in itertools.product(g, repeat=2):
            for kind in ("uf", "lf", "ui", "li"):
                for step in ((1, 2, 3, 4) if kind == "ui" else (None,)):
                    for sc in ((1,) if kind in ("ui", "li") else (1, 0.125)):
                        for prefix in ("", "pre_"):
                            yield [kind, lo * sc, hi * sc, step, prefix]
        for n in range(1, 4):
            for ch in itertools.product(["x", "y", 1, 2.5, True, None], repeat=n):
                if len({(type(c), c) for c in ch}) == n and len(set(map(repr, ch))) == n and not {1, True} <= set(c for c in ch if c is not None):
                    yield ["cat", ch, None, None, "p."]
    return gen


def ask(pick):
    """A real trial whose values are chosen by pick(dist)."""
    import optuna

    class S(optuna.samplers.BaseSampler):
        def infer_relative_search_space(self, study, trial):
            return {}

        def sample_relative(self, study, trial, space):
            return {}

        def sample_independent(self, study, trial, name, dist):
            seen.append((name, dist))
            return pick(name, dist)

    seen = []
    return optuna.create_study(sampler=S()).ask(), seen


def run_range(ctx, case):
    import optuna

    import irspack.optimization as O

    kind, lo, hi, step, prefix = case
    D = optuna.distributions
    ctx.step()
    if kind == "cat":
        ch = list(lo)
        before = list(ch)
        r = O.CategoricalRange("w", ch)
        for i in range(len(ch)):
            t, seen = ask(lambda n, d: d.choices[i])
            v = r.suggest(t, prefix)
            ctx.check(type(v) is type(before[i]) and v == before[i], f"choice {i} of {before} suggested as {v!r}")
            ctx.eq([n for n, _ in seen], [prefix + "w"] if len(ch) > 1 else [n for n, _ in seen], "names suggested")
            ctx.eq(t.params, {prefix + "w": before[i]}, "parameter recorded")
            ctx.eq(list(t.distributions[prefix + "w"].choices), before, "choices offered")
        ctx.eq(ch, before, "choices list changed")
        ctx.outcome(case)
        return
    cls = dict(uf=O.UniformFloatRange, lf=O.LogUniformFloatRange, ui=O.UniformIntegerRange, li=O.LogUniformIntegerRange)[kind]
    kw = {} if step is None or (step == 1 and prefix == "") else dict(step=step)
    if lo > hi:
        ctx.raises(ValueError, lambda: cls("w", lo, hi, **kw), f"{kind}({lo}, {hi})")
        ctx.outcome("rejected")
        return
    bad = kind in ("lf", "li") and lo <= 0
    t, seen = ask(lambda n, d: d.low)
    if bad:
        ctx.raises(Exception, lambda: cls("w", lo, hi).suggest(t), f"{kind}({lo}, {hi}): a logarithmic range reaching 0 or below")
        ctx.outcome("rejected-log")
        return
    r = cls("w", lo, hi, **kw)
    st = step or 1
    top = lo + (hi - lo) // st * st if kind == "ui" else hi
    for which in ("low", "high", "mid"):
        t, seen = ask(lambda n, d: d.low if which == "low" else d.high if which == "high" else
                      (d.low + (d.high - d.low) // 2 // d.step * d.step if isinstance(d, D.IntDistribution) else (d.low + d.high) / 2))
        v = r.suggest(t, prefix) if prefix else r.suggest(t)
        ctx.eq(list(t.params), [prefix + "w"], "name suggested")
        d = t.distributions[prefix + "w"]
        ctx.eq((type(d), d.low, d.high, d.log), (D.IntDistribution if kind in ("ui", "li") else D.FloatDistribution, lo, top, kind in ("lf", "li")),
               f"search space of {kind}({lo}, {hi}, step={step})")
        if kind == "ui":
            ctx.eq(d.step, st, "step")
        else:
            ctx.check(d.step in (None, 1) or d.low == d.high, f"unexpected step {d.step}")
        ctx.check(lo <= v <= hi and v == t.params[prefix + "w"], f"suggested value {v} outside [{lo}, {hi}]")
        ctx.check(isinstance(v, int if kind in ("ui", "li") else float), f"type of {v!r}")
    ctx.outcome(kind, lo, hi, step)


# ------------------------------------------------------------------ recommenders
def classes():
    import irspack.recommenders as R

    return {n: getattr(R, n) for n in sorted(set(R.__all__)) if n.endswith("Recommender") and not n.startswith("Base")}


def default_cases(tier):
    def gen():
        for n, c in classes().items():
            names = [p.name for p in getattr(c, "default_tune_range", [])]
            for k in range(len(names) + 1):
                for fx in itertools.combinations(range(len(names)), k):
                    yield ["subset", n, fx]
            dims = [len(p.choices) if hasattr(p, "choices") else 2 for p in getattr(c, "default_tune_range", [])]
            for corner in itertools.product(*[range(d) for d in dims]):
                yield ["corner", n, corner]
    return gen


def run_default(ctx, case):
    import warnings

    import numpy as np
    import scipy.sparse as sps

    what, name, sel = case
    cls = classes()[name]
    rngs = list(getattr(cls, "default_tune_range", []))
    names = [p.name for p in rngs]
    ctx.eq(len(set(names)), len(names), f"{name}: tunable parameters listed twice: {names}")
    ctx.step()
    if not rngs:
        if hasattr(cls, "default_tune_range"):
            t, _ = ask(lambda n, d: d.low)
            ctx.eq(cls.default_suggest_parameter(t, {}), {}, "suggestion")
        return
    if what == "subset":
        for val in (object, lambda: None, lambda: 0, lambda: False, lambda: ""):
            fixed = {names[i]: val() for i in sel}
            given = dict(fixed)
            t, seen = ask(lambda n, d: d.choices[-1] if hasattr(d, "choices") else d.low)
            got = cls.default_suggest_parameter(t, fixed)
            want = sorted(set(names) - set(fixed))
            ctx.eq(sorted(got), want, f"{name}: parameters suggested with {fixed} fixed")
            ctx.eq(sorted(t.params), want, f"{name}: parameters recorded")
            for k in got:
                ctx.check(got[k] == t.params[k], f"{name}: suggested {k}={got[k]!r}, recorded {t.params[k]!r}")
            ctx.eq(fixed, given, "fixed parameters changed")
            if not sel:
                break
        ctx.outcome(name, want)
        return
    pick = dict(zip(names, sel))
    t, seen = ask(lambda n, d: d.choices[pick[n]] if hasattr(d, "choices") else (d.high if pick[n] else d.low))
    got = cls.default_suggest_parameter(t, {})
    for p in rngs:
        if hasattr(p, "choices"):
            ctx.eq(got[p.name], p.choices[pick[p.name]], f"{name}: {p.name}")
        else:
            ctx.eq(got[p.name], p.high if pick[p.name] else p.low, f"{name}: {p.name} at the {'upper' if pick[p.name] else 'lower'} bound")
    r = np.random.RandomState(0)
    X = sps.csr_matrix((r.rand(12, 8) < 0.4).astype(float))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(got)
        import inspect

        if "train_epochs" in inspect.signature(cls.__init__).parameters:
            kw["train_epochs"] = 1
        if "n_threads" in inspect.signature(cls.__init__).parameters:
            kw["n_threads"] = 1
        m = cls(X, **kw)
        for k, v in got.items():
            a = getattr(m, k, v)
            if isinstance(a, (int, float)) and isinstance(v, (int, float)) and name != "TruncatedSVDRecommender":
                ctx.check(math.isclose(a, v), f"{name}: {k}={v} stored as {a}")
        m.learn()
        s = m.get_score(np.arange(12))
        s = s.toarray() if sps.issparse(s) else s
        ctx.eq(s.shape, (12, 8), f"{name}: shape of the scores")
        ctx.check(not np.isnan(s).any(), f"{name}: NaN scores with the suggested parameters {got}")
    ctx.outcome(name, sel)


# ------------------------------------------------------------------ user-defined search spaces
NAMES = ["a", "aa", "a_a", "a-a", "xa", "A", "a1"]


def space_cases(tier):
    def gen():
        for k in (1, 2, 3):
            for tuned in itertools.permutations(NAMES[:5] if k == 3 and tier != "thorough" else NAMES, k):
                for m in range(0, 3):
                    for fixed in itertools.combinations(NAMES + ["", "n"], m):
                        yield [tuned, fixed]
    return gen


def run_space(ctx, case):
    """default_suggest_parameter of a user's own class whose parameter names contain each other."""
    import irspack.optimization as O
    from irspack.recommenders.base import BaseRecommender

    tuned, fixed = case
    mk = [lambda n, i: O.UniformFloatRange(n, i, i + 0.5), lambda n, i: O.UniformIntegerRange(n, 10 * i, 10 * i + 5), lambda n, i: O.CategoricalRange(n, ["x", i])]

    class Own(BaseRecommender, register_class=False):
        default_tune_range = [mk[i % 3](n, i) for i, n in enumerate(tuned)]

        def _learn(self):
            pass

        def get_score(self, u):
            raise AssertionError

    before = list(Own.default_tune_range)
    fx = {n: None for n in fixed}
    t, seen = ask(lambda n, d: d.choices[-1] if hasattr(d, "choices") else d.high)
    got = Own.default_suggest_parameter(t, fx)
    ctx.step()
    want = {n: [i + 0.5, 10 * i + 5, i][i % 3] for i, n in enumerate(tuned) if n not in fixed}
    ctx.eq(got, want, f"suggestion for the tunable {tuned} with {fixed} fixed")
    ctx.eq(t.params, want, "parameters recorded")
    ctx.eq(fx, {n: None for n in fixed}, "fixed parameters changed")
    ctx.check(Own.default_tune_range == before, "the class's search space changed")
    ctx.outcome(case)


def families(tier):
    return {"names": (name_cases(tier), run_name), "long_names": (long_cases(tier), run_long), "ranges": (range_cases(tier), run_range),
            "defaults": (default_cases(tier), run_default),
            "own_spaces": (space_cases(tier), run_space)}
