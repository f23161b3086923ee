"""C30: randomized steps depend on their inputs and the given random state only."""
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys

LEVEL = "model_checking"
RULE = (
    "Every history of up to three randomized calls (splits and sample data, two seeds each) and disturbances of the global generators is executed; each call must "
    "give the result it gives alone and leave the global generators as they were. Every sequence of calls sharing one RandomState is executed twice from equal "
    "states: equal results, equal states afterwards, a new draw each time, and the first result that of the integer seed. Tuning and model training run in every "
    "pair order around disturbances, and all operations run again in fresh processes under other hash seeds and in reversed order."
)
ASSUMPTIONS = ["lightfm, jax, haiku and optax are replaced by deterministic stand-ins; optuna's sampler and scikit-learn are real.",
               "A seed of None asks for fresh entropy; nothing is required of it."]
BOUNDS = {"quick": "all histories of length 1..3 over 14 calls and 3 disturbances; all sequences of length 1..3 over 7 calls on a shared state, 2 seeds; 16 seeds per call; all ordered pairs of 10 heavy operations; 4 hash seeds x 2 orders",
          "thorough": "histories of length 4 over 7 calls and 3 disturbances, sequences of length 4; 64 seeds; 12 hash seeds"}
JOBS = 8
CASE_TIMEOUT = 300


def setup():
    from vf import models

    models.setup()
    import irspack.split  # noqa
    import irspack.utils.sample_data  # noqa


# ------------------------------------------------------------------ operations
def data():
    import numpy as np
    import pandas as pd
    import scipy.sparse as sps

    D = np.array([[1, 2, 3, 4, 5, 0], [0, 1, 0, 2, 3, 1], [1, 1, 1, 0, 0, 1], [2, 0, 2, 1, 1, 0], [0, 1, 1, 1, 0, 2], [1, 0, 0, 1, 1, 1], [1, 1, 0, 0, 1, 1]], dtype=float)
    X = sps.csr_matrix(D)
    u, i = D.nonzero()
    df = pd.DataFrame(dict(u=[f"user-{(3 * a) % 7}" for a in u], i=[f"item-{(5 * b) % 6}" for b in i], r=D[u, i], t=[(a * 7 + b * 5) % 11 for a, b in zip(u, i)]))
    return X, df


def canon(x):
    """A value-only description of a result (order of rows, columns and ids included)."""
    import numpy as np
    import pandas as pd
    import scipy.sparse as sps

    if sps.issparse(x):
        c = sps.csr_matrix(x).copy()
        c.sum_duplicates()
        c.sort_indices()
        return ("csr", c.shape, c.indptr.tolist(), c.indices.tolist(), c.data.tolist())
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tolist())
    if isinstance(x, pd.DataFrame):
        return ("frame", [(c, [repr(v) for v in x[c]]) for c in x.columns if "datetime" not in c and c != "duration"])
    if isinstance(x, dict):
        return ("dict", [(k, canon(v)) for k, v in sorted(x.items(), key=lambda p: str(p[0]))])
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if hasattr(x, "X_train"):
        return [canon(getattr(x, k, None)) for k in ("user_ids", "X_train", "X_test", "item_ids")]
    return repr(x)


def light():
    from irspack.split import holdout_specific_interactions, split_dataframe_partial_user_holdout
    from irspack.utils import rowwise_train_test_split
    from irspack.utils.sample_data import mf_example_data

    X, df = data()
    flag = (df["t"] % 3 == 0).values
    return {
        "rowwise-ratio": lambda s: rowwise_train_test_split(X, test_ratio=0.5, random_state=s),
        "rowwise-n": lambda s: rowwise_train_test_split(X, n_test=2, random_state=s),
        "rowwise-ceil": lambda s: rowwise_train_test_split(X, test_ratio=0.55, ceil_n_heldout=True, random_state=s),
        "userwise": lambda s: split_dataframe_partial_user_holdout(df, "u", "i", rating_column="r", n_val_user=2, n_test_user=2, random_state=s),
        "userwise-time": lambda s: split_dataframe_partial_user_holdout(df, "u", "i", time_column="t", n_val_user=2, n_test_user=2, random_state=s),
        "specified": lambda s: holdout_specific_interactions(df, "u", "i", flag, 0.4, 0.4, random_state=s),
        "sample": lambda s: mf_example_data(5, 4, 2, random_state=s),
    }


def heavy():
    import logging

    import optuna

    optuna.logging.set_verbosity(optuna.logging.ERROR)
    from irspack.default_logger import get_default_logger
    from irspack.evaluation import Evaluator
    from irspack.recommenders import IALSRecommender, RP3betaRecommender
    from irspack.utils import rowwise_train_test_split
    from vf import models as Z

    get_default_logger().setLevel(logging.CRITICAL)
    X, _ = data()
    tr, te = rowwise_train_test_split(X, n_test=1, random_state=3)
    ev = Evaluator(te, cutoff=3, n_threads=1)

    def score(name, **kw):
        return lambda s: Z.make(name, X, **kw).learn().get_score(__import__("numpy").arange(X.shape[0]))

    def seeded(name):
        return lambda s: Z.make(name, X, random_seed=s).learn().get_score(__import__("numpy").arange(X.shape[0]))

    return {
        "ials": seeded("ials"), "svd": seeded("svd"), "nmf": score("nmf"), "multvae": score("multvae"), "slim": score("slim"), "bprfm": score("bprfm"), "cosine": score("cosine"),
        "tune-rp3": lambda s: RP3betaRecommender.tune(tr, ev, n_trials=12, tuning_random_seed=s),
        "tune-ials": lambda s: IALSRecommender.tune(tr, ev, n_trials=4, tuning_random_seed=s, max_epoch=2, n_components=2, n_threads=1),
        "doubling": lambda s: IALSRecommender.tune_doubling_dimension(tr, ev, 2, 4, study_name_prefix="p", n_trials_initial=3, n_trials_following=2, max_epoch=2, random_seed=s),
    }


def by_id():
    """Operations on ids, whose order must not depend on the hash seed of the process."""
    import numpy as np
    import pandas as pd

    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    from irspack.recommenders import CosineKNNRecommender
    from irspack.split import holdout_specific_interactions, split_dataframe_partial_user_holdout, split_last_n_interaction_df
    from irspack.utils import IDMapper, ItemIDMapper, df_to_sparse

    X, df = data()
    items = [f"i{k}" for k in range(6)]
    users = [f"u{k}" for k in range(7)]
    tied = np.zeros((7, 6))
    ids = {"str": str, "bytes": lambda v: str(v).encode(), "mixed": lambda v: v if hash(int(v[-1])) % 2 else int(v[-1]), "date": lambda v: pd.Timestamp(2020, 1, 1 + int(v[-1]))}
    ops = {}
    for k, f in ids.items():
        d = pd.DataFrame(dict(u=[f(v) for v in df["u"]], i=[f(v) for v in df["i"]], r=df["r"], t=df["t"]))
        ops[f"matrix-{k}"] = lambda s, d=d: df_to_sparse(d, "u", "i", rating_column="r")
        ops[f"userwise-{k}"] = lambda s, d=d: [split_dataframe_partial_user_holdout(d, "u", "i", rating_column="r", n_val_user=2, n_test_user=2, n_heldout_val=1, random_state=q) for q in (s, s + 1)]
        ops[f"userwise-time-{k}"] = lambda s, d=d: split_dataframe_partial_user_holdout(d, "u", "i", time_column="t", n_val_user=2, n_test_user=2, random_state=s)
        ops[f"lastn-{k}"] = lambda s, d=d: split_last_n_interaction_df(d, "u", "t", n_heldout=1)
        if k != "mixed":
            ops[f"specified-{k}"] = lambda s, d=d: holdout_specific_interactions(d.copy(), "u", "i", (d["t"] % 3 == 0).values, 0.4, 0.4, random_state=s)
        ops[f"table-{k}"] = lambda s, d=d: {a: round(float(b), 10) for a, b in evaluate_recommendation_df(d, d[d["t"] > 4], "u", "i").items()}
    rec = CosineKNNRecommender(X, top_k=3, n_threads=1).learn()
    ops["recommend-known"] = lambda s: IDMapper(users, items).recommend_for_known_user_batch(rec, users[:3], cutoff=4, forbidden_item_ids=[["i1"], ["i2"], []])
    ops["recommend-new"] = lambda s: ItemIDMapper(items).recommend_for_new_user_batch(rec, [["i0", "i3"], {"i5": 2.0, "i1": 1.0}], cutoff=4)
    ops["recommend-tied"] = lambda s: [ItemIDMapper(items).score_to_recommended_items_batch(tied, cutoff=c, allowed_item_ids=a) for c in (1, 3, 6) for a in (None, items[1:5])]
    return ops


SEEDED = ("ials", "svd", "tune-rp3", "tune-ials", "doubling")
_ref = {}


def reference(name, seed):
    """The result of the call alone, from undisturbed generators."""
    import numpy as np

    if (name, seed) not in _ref:
        g, p = np.random.get_state(), random.getstate()
        np.random.seed(12345)
        random.seed(12345)
        _ref[name, seed] = canon({**light(), **heavy(), **by_id()}[name](seed))
        np.random.set_state(g)
        random.setstate(p)
    return _ref[name, seed]


def glob():
    import numpy as np

    # Python's own generator is left out: it is only drawn from for the unique names of uuid.uuid1()
    s = np.random.get_state()
    return (s[1].tobytes(), s[2:])


def rstate(r):
    s = r.get_state()
    return (s[1].tobytes(), s[2:])


def disturb(k):
    import numpy as np

    if k == 0:
        np.random.seed(7)
    elif k == 1:
        np.random.rand(5)
        np.random.permutation(4)
    else:
        random.seed(99)
        random.random()


# ------------------------------------------------------------------ histories
NAMES = ["rowwise-ratio", "rowwise-n", "rowwise-ceil", "userwise", "userwise-time", "specified", "sample"]


def hist_cases(tier):
    ops = [[n, s] for n in NAMES for s in (0, 1)] + [["!", k] for k in range(3)]
    short = [[n, 0] for n in NAMES] + [["!", k] for k in range(3)]

    def gen():
        for k in (1, 2, 3):
            for h in itertools.product(ops, repeat=k):
                if h[-1][0] != "!":
                    yield h
        if tier == "thorough":
            for h in itertools.product(short, repeat=4):
                if h[-1][0] != "!":
                    yield h
    return gen


def run_hist(ctx, h):
    import numpy as np

    ops = light()
    for n, s in h:
        if n != "!":
            reference(n, s)
    np.random.seed(5)
    random.seed(5)
    for n, s in h:
        ctx.step()
        if n == "!":
            disturb(s)
            continue
        before = glob()
        got = canon(ops[n](s))
        ctx.check(got == reference(n, s), lambda: f"{n} with seed {s} gives another result in the history {h}")
        ctx.check(glob() == before, lambda: f"{n} with seed {s} changes NumPy's global random generator")
    ctx.outcome(h)


# ------------------------------------------------------------------ one RandomState for several calls
def shared_cases(tier):
    def gen():
        for k in range(1, 5 if tier == "thorough" else 4):
            for h in itertools.product(NAMES, repeat=k):
                for seed in (0, 2**32 - 1) if k < 4 else (0,):
                    yield [h, seed]
    return gen


def run_shared(ctx, case):
    import numpy as np

    h, seed = case
    ops = light()
    a, b = np.random.RandomState(seed), np.random.RandomState(seed)
    for k, n in enumerate(h):
        ctx.step()
        disturb(k % 3)
        before, g = rstate(a), glob()
        x = canon(ops[n](a))
        ctx.check(glob() == g, f"{n} with a RandomState changes NumPy's global random generator")
        disturb((k + 1) % 3)
        y = canon(ops[n](b))
        ctx.check(x == y, f"call {k} ({n}) of {h}: equal RandomStates, different results")
        ctx.check(rstate(a) == rstate(b), f"call {k} ({n}) of {h}: the RandomStates differ afterwards")
        ctx.check(rstate(a) != before, f"{n} does not draw from the RandomState it is given")
        if k == 0:
            ctx.check(x == reference(n, seed), f"{n}: RandomState({seed}) and the seed {seed} give different results")
    ctx.outcome(case)


# ------------------------------------------------------------------ seeds matter; other values are rejected
def seed_cases(tier):
    def gen():
        for n in NAMES:
            yield ["seeds", n]
            for k in range(7):
                yield ["bad", n, k]
        for n in SEEDED:
            yield ["seeds", n]
    return gen


def run_seed(ctx, case):
    import numpy as np

    if case[0] == "seeds":
        ops = {**light(), **heavy()}
        n = case[1]
        seeds = list(range(8 if n in SEEDED else 16))
        rs = [canon(ops[n](s)) for s in seeds]
        ctx.step(len(seeds))
        ctx.check(len({json.dumps(r, default=repr) for r in rs}) > 1, f"{n} ignores its seed")
        ctx.check([canon(ops[n](s)) for s in seeds] == rs, f"{n}: a seed gives different results when used again")
        if n in NAMES:
            ctx.check([canon(ops[n](np.random.RandomState(s))) for s in seeds] == rs, f"{n}: an integer seed and a RandomState with that seed differ")
        ctx.outcome(case)
        return
    _, n, k = case
    v = ["0", 1.5, np.random.default_rng(0), [1, 2], object(), np.random, (3,)][k]
    ctx.step()
    ctx.raises((ValueError, TypeError), lambda: light()[n](v), f"{n} with random_state {type(v)}")


# ------------------------------------------------------------------ tuning and training
def heavy_cases(tier):
    names = list(("ials", "svd", "nmf", "multvae", "slim", "bprfm", "cosine", "tune-rp3", "tune-ials", "doubling"))

    def gen():
        for a, b in itertools.product(names, repeat=2):
            yield [a, b]
        for a in names:
            for b in NAMES:
                yield [a, b]
    return gen


def run_heavy(ctx, case):
    import numpy as np

    ops = {**light(), **heavy()}
    for n in case:
        reference(n, 1)
    np.random.seed(21)
    random.seed(21)
    for k in range(3):
        for n in case:
            ctx.step()
            disturb(k)
            before = glob()
            got = canon(ops[n](1))
            ctx.check(got == reference(n, 1), f"{n} gives another result after {case} (round {k})")
            ctx.check(glob() == before, f"{n} changes NumPy's global random generator")
    ctx.outcome(case)


# ------------------------------------------------------------------ other processes
def digest(order):
    ops = {**light(), **heavy(), **by_id()}
    names = sorted(ops)
    if order:
        names.reverse()
    return {n: hashlib.sha256(json.dumps(canon(ops[n](1)), default=repr).encode()).hexdigest() for n in names}


def process_cases(tier):
    def gen():
        for hs in range(1, 13 if tier == "thorough" else 5):
            for order in (0, 1):
                yield [hs, order]
    return gen


def run_process(ctx, case):
    hs, order = case
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = ("import sys, json; sys.path.insert(0, %r)\nfrom checks import c30\nc30.setup()\nimport numpy as np, random\nnp.random.seed(%d); random.seed(%d)\n"
            "print('\\nDIGEST ' + json.dumps(c30.digest(%d)))" % (root, hs, hs, order))
    r = subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(hs)}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines = [x for x in r.stdout.splitlines() if x.startswith("DIGEST ")]
    if not lines:
        raise RuntimeError(r.stderr[-2000:])
    got = json.loads(lines[0][7:])
    want = {n: hashlib.sha256(json.dumps(reference(n, 1), default=repr).encode()).hexdigest() for n in got}
    ctx.step(len(got))
    bad = sorted(n for n in got if got[n] != want[n])
    ctx.check(not bad, f"{bad}: another result in a process with hash seed {hs} (order {order})")
    ctx.outcome(case)


# ------------------------------------------------------------------ sample data
def sample_cases(tier):
    def gen():
        for nu, ni in itertools.product((1, 2, 3, 7), repeat=2):
            for k in (1, 2, 5):
                for seed in range(6 if tier == "thorough" else 3):
                    yield ["small", nu, ni, k, seed, 0.3]
        for dens in (0.02, 0.1, 0.3, 0.5, 0.8, 0.97):
            for k in (1, 3, 5):
                for seed in range(3):
                    yield ["density", 120, 90, k, seed, dens]
    return gen


def run_sample(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils.sample_data import mf_example_data

    kind, nu, ni, k, seed, dens = case
    X = mf_example_data(nu, ni, k, random_state=seed, density_target=dens)
    ctx.step()
    ctx.check(sps.issparse(X) and X.shape == (nu, ni), f"sample data of shape {getattr(X, 'shape', None)} for {nu} users and {ni} items")
    ctx.check(set(np.unique(X.toarray())) <= {0, 1}, "sample data are not 0/1")
    ctx.check(X.nnz == np.count_nonzero(X.toarray()), "sample data with explicit zeros")
    if kind == "density":
        d = X.nnz / (nu * ni)
        ctx.check(abs(d - dens) < 0.04, f"density {d}, target {dens}")
        D = X.toarray().astype(float)
        if 0.1 <= dens <= 0.8:  # low-rank structure: users differ in what they like
            c = np.corrcoef(D + 1e-9 * np.arange(ni))
            ctx.check(np.abs(c[np.triu_indices(nu, 1)]).max() > 0.25, "no structure in the sample data")
    ctx.outcome(case)


def families(tier):
    return {"histories": (hist_cases(tier), run_hist), "shared_state": (shared_cases(tier), run_shared), "seeds": (seed_cases(tier), run_seed),
            "training": (heavy_cases(tier), run_heavy), "processes": (process_cases(tier), run_process), "sample_data": (sample_cases(tier), run_sample)}
