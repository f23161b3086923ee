"""C26: parallel kernels under every schedule and spawn failure."""
import os

os.environ["VF_VARIANT"] = "sched"

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the compiled kernels: controlled scheduler, dynamic partial-order reduction with sleep sets, happens-before race detection, fault injection into thread creation"
RULE = (
    "The extensions are compiled with every synchronization operation and memory access routed through a controlled scheduler. Each kernel is called with 2..4 workers on inputs "
    "with fewer, as many and more work chunks than workers; dynamic partial-order reduction with sleep sets enumerates every schedule that can behave differently. After each "
    "schedule the value must be that of one worker, no two unordered accesses to a byte may conflict (happens-before), every worker must have ended, and no schedule may deadlock. "
    "Worker errors must reach the caller in every schedule. With creation of the k-th worker (and of the later ones, or only of that one) failing, for every k, the call must give the complete value or an error, "
    "and the next call the complete value."
)
ASSUMPTIONS = [
    "Sequentially consistent execution of atomics; weaker orders show up as unordered accesses in the race detector.",
    "In calls with several parallel phases (each joins all its workers) all schedules of each phase are combined with one schedule of the other phases; the thorough tier also takes products.",
    "Sums may differ by rounding (rtol 1e-4 single, 1e-9 double precision).",
    "Memory accesses inside the C++ runtime library and Python are not monitored.",
]
BOUNDS = {"quick": "20 kernels x 2..3 workers x 2-4 input sizes, all schedules; spawn failure at every worker x all schedules",
          "thorough": "2..4 workers, larger inputs, products of phases"}
CASE_TIMEOUT = 800
LIMIT = {"quick": 4000, "thorough": 60000}

M = {}


def setup():
    from vf import load, sched

    load.VARIANT = "sched"
    load.install()
    from vf import build

    build.build_many(list(build.MODULES), "sched")
    import irspack.evaluation._core_evaluator as E
    import irspack.recommenders._ials_core as C
    import irspack.recommenders._knn as K
    import irspack.utils._util_cpp as U

    for n, m in (("E", E), ("C", C), ("K", K), ("U", U)):
        M[n] = (m, sched.Module(m.__file__))


def grid(n, m, base=4, salt=0):
    """a dense matrix with generic values and about a third of zeros"""
    import numpy as np

    i = np.arange(n * m).reshape(n, m)
    return (((i * 7 + salt + i // 5) % base) * (1 + 0.25 * (i % 3))).astype(float)


CFG = dict(alpha0=0.3, reg=0.2, nu=1.0, loss="IALSPP", lam_u=0.4, lam_i=0.6)


def scenario(name, size, T):
    """(module, prepare, call, again, single): call(prepare()) is the monitored call,
    `again` tells whether it may be repeated on the same object after a failure"""
    import numpy as np
    import scipy.sparse as sps

    from vf import alsref

    g, rest = name.split(".", 1)
    if g == "util":
        U = M["U"][0]
        if rest == "mm":
            A = sps.csr_matrix(grid(size, 3))
            B = sps.csc_matrix(grid(3, 4, salt=2))
            return "U", None, lambda: U.sparse_mm_threaded(A, B, T), True
        if rest in ("ret", "ret32", "ret_allowed", "ret_per_user"):
            S = grid(size, 4, base=9, salt=1)
            allowed = {"ret_allowed": [[3, 1]], "ret_per_user": [[(u + 1) % 4, u % 4] for u in range(size)]}.get(rest, [])
            if rest == "ret32":
                S = S.astype(np.float32)
                return "U", None, lambda: U.retrieve_recommend_from_score_f32(S, allowed, 2, T), True
            return "U", None, lambda: U.retrieve_recommend_from_score_f64(S, allowed, 2, T), True
        if rest in ("slim", "slim_pos", "slim_topk"):
            X = sps.csr_matrix(grid(4, size).astype(np.float32))
            f = U.slim_weight_positive_only if rest == "slim_pos" else U.slim_weight_allow_negative
            k = 1 if rest == "slim_topk" else -1
            return "U", None, lambda: f(X, T, 2, 0.3, 0.1, 0.0, k), True
    if g == "knn":
        K = M["K"][0]
        X = sps.csr_matrix(grid(size, 4))
        kw = dict(n_threads=T, max_chunk_size=2)
        mk = {
            "cosine": lambda: K.CosineSimilarityComputer(X, 1.0, True, **kw),
            "jaccard": lambda: K.JaccardSimilarityComputer(X, 1.0, **kw),
            "tversky": lambda: K.TverskyIndexComputer(X, 1.0, 0.3, 0.7, **kw),
            "asym": lambda: K.AsymmetricSimilarityComputer(X, 1.0, 0.4, **kw),
            "p3": lambda: K.P3alphaComputer(sps.csr_matrix(X.T), 0.8, **kw),
            "rp3": lambda: K.RP3betaComputer(sps.csr_matrix(X.T), 0.8, 0.3, **kw),
        }[rest]
        if rest in ("p3", "rp3"):
            Y = sps.csr_matrix(X.T)
            return "K", mk, lambda c: c.compute_W(Y, 2), True
        return "K", mk, lambda c: c.compute_similarity(X, 2), True
    if g == "eval":
        E = M["E"][0]
        G = sps.csr_matrix((grid(size, 4, base=3, salt=1) > 0).astype(float))
        S = grid(size, 4, base=9, salt=3)
        rec = {"metrics": [], "global": [[0, 2, 3]], "peruser": [[u % 3, 3] for u in range(size)], "cached": [], "f32": [], "cache": [[1, 2]], "offset": []}
        d = lambda m: m.as_dict()
        if rest == "list":
            R = [[(u + j) % 4 for j in range(2)] for u in range(size)]
            L = [[(u * 2 + 1) % 4] for u in range(size)]
            return "E", None, lambda: d(E.evaluate_list_vs_list(R, L, 4, T)), True
        r = rec[rest]

        def prep():
            e = E.EvaluatorCore(G, r)
            if rest == "cached":
                e.cache_X_as_set(1)
            return e
        if rest == "f32":
            S32 = S.astype(np.float32)
            return "E", prep, lambda e: d(e.get_metrics_f32(S32, 2, 0, T, False)), True
        if rest == "offset":
            return "E", prep, lambda e: d(e.get_metrics_f64(S[:-1], 2, 1, T, True)), True
        if rest == "cache":
            return "E", prep, lambda e: (e.cache_X_as_set(T), d(e.get_metrics_f64(S, 2, 0, 1, False)))[1], True
        return "E", prep, lambda e: d(e.get_metrics_f64(S, 2, 0, T, False)), True
    if g == "ials":
        kind, op = rest.split(".")
        rows = size
        SK = {"cg": ("CG", dict(cg=2)), "chol": ("CHOLESKY", {}), "pp": ("IALSPP", dict(dim=2)), "icd": ("IALSPP", dict(dim=1))}
        feat = kind.endswith("F")
        sk, kw = SK[kind.rstrip("F")]
        sc = alsref.solver(sk, T, **kw)
        if op == "step":
            X = grid(rows, 2)
            K = 3 if kind == "pp" else 2
            F = sps.csr_matrix(grid(rows, 2, salt=1).astype(np.float32)) if feat else None
            G = grid(2, 2, salt=5).astype(np.float32) if feat else None
            if feat:
                G = sps.csr_matrix(G)

            def call(t):
                t.step(sc)
                return [np.array(t.user), np.array(t.item), np.array(t.user_feature_weight), np.array(t.item_feature_weight)]
            return "C", lambda: alsref.core(X, K, CFG, F, G), call, False
        if op == "loss":
            X = grid(rows, 2)
            F = sps.csr_matrix(grid(rows, 2, salt=1).astype(np.float32)) if feat else None
            return "C", lambda: alsref.core(X, 2, CFG, F, None), lambda t: t.compute_loss(sc), True
        if op == "scores":
            n = {1: 5, 2: 17, 3: 40, 4: 65}[rows]
            X = grid(n, 3)
            return "C", lambda: alsref.core(X, 2, CFG), lambda t: t.user_scores(1, n, sc), True
        if op in ("foldu", "foldi"):
            # several chunks of the Gram matrix, a few rows
            n = 35
            X = grid(2, n) if op == "foldu" else grid(n, 2)
            Y = sps.csr_matrix((grid(rows, n, salt=3) if op == "foldu" else grid(n, rows, salt=3)).astype(np.float32))
            if feat:
                nf = rows
                F = sps.csr_matrix(grid(2, 2, salt=1).astype(np.float32)) if op == "foldu" else None
                G = None if op == "foldu" else sps.csr_matrix(grid(2, 2, salt=1).astype(np.float32))
                N = sps.csr_matrix(grid(nf, 2, salt=2).astype(np.float32))
                f = (lambda t: t.transform_user_with_feature(Y, N, sc)) if op == "foldu" else (lambda t: t.transform_item_with_feature(Y, N, sc))

                def prep():
                    t = alsref.core(X, 2, CFG, F, G)
                    w = alsref.factors(2, 2, 7)
                    if op == "foldu":
                        t.user_feature_weight = w
                    else:
                        t.item_feature_weight = w
                    return t
                return "C", prep, f, True
            f = (lambda t: t.transform_user(Y, sc)) if op == "foldu" else (lambda t: t.transform_item(Y, sc))
            return "C", lambda: alsref.core(X, 2, CFG), f, True
    raise KeyError(name)


UTIL = ["util.mm", "util.ret", "util.ret32", "util.ret_allowed", "util.ret_per_user", "util.slim", "util.slim_pos", "util.slim_topk"]
KNN = ["knn.cosine", "knn.jaccard", "knn.tversky", "knn.asym", "knn.p3", "knn.rp3"]
EV = ["eval.metrics", "eval.global", "eval.peruser", "eval.cached", "eval.f32", "eval.offset", "eval.cache", "eval.list"]
STEP = ["ials.cg.step", "ials.chol.step", "ials.pp.step", "ials.icd.step", "ials.cgF.step", "ials.cholF.step"]
LOSS = ["ials.cg.loss", "ials.cgF.loss"]
FOLD = ["ials.cg.foldu", "ials.chol.foldu", "ials.pp.foldu", "ials.icd.foldu", "ials.cgF.foldu", "ials.cholF.foldu", "ials.cg.foldi", "ials.chol.foldi", "ials.cgF.foldi"]
SCORE = ["ials.cg.scores"]
ALL = UTIL + KNN + EV + STEP + LOSS + FOLD + SCORE


def sizes(name, T, tier):
    big = tier == "thorough"
    if name == "util.mm":
        return [5, 17, 33, 40] + ([64, 65] if big else [])
    if name.startswith("util.slim"):
        return [3, 9, 11] + ([13, 17] if big else [])
    if name.startswith("knn."):
        return [1, 2, 3, 5] + ([7, 9] if big else [])
    if name.endswith(".scores"):
        return [1, 2, 3] + ([4] if big else [])
    if name.startswith("ials."):
        return [1, 2, 3] + ([4] if big else [])
    if name == "eval.offset":
        return [2, 4] + ([5] if big else [])
    return [1, 2, 3] + ([4] if big or T == 2 else [])


def dense(v):
    import numpy as np
    import scipy.sparse as sps

    if sps.issparse(v):
        return v.toarray()
    return np.array(v)


def same(a, b, single=False):
    import numpy as np

    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and a and isinstance(a[0], np.ndarray):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = dense(a), dense(b)
    single = single or a.dtype == np.float32 or b.dtype == np.float32
    tol = 1e-4 if single else 1e-9
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def reference(name, size):
    _, prep, call, _ = scenario(name, size, 1)
    return call(prep()) if prep else call()


def cases_sched(names):
    def mk(tier):
        def gen():
            for T in (2, 3) if tier == "quick" else (2, 3, 4):
                for name in names:
                    for s in sizes(name, T, tier):
                        yield [name, s, T, tier]
        return gen
    return mk


def run_sched(ctx, case, fail=0, product=False):
    from vf import sched

    name, size, T, tier = case[:4]
    want = reference(name, size)
    which, prep, call, again = scenario(name, size, T)
    mod = M[which][1]
    # warm-up: one-time initializations are not part of the schedules
    call(prep()) if prep else call()

    def judge(val, err, s):
        if err is not None:
            ctx.fail(f"{name} size {size} with {T} workers, schedule {s}: {type(err).__name__}: {err}")
        ctx.check(same(want, val, which == "C"), lambda: f"{name} size {size} with {T} workers, schedule {s}: {val}, single-threaded {want}")
    try:
        r = sched.explore(mod, call, judge, prepare=prep, limit=LIMIT[tier], product=product)
    except (sched.Raced, sched.Unfinished) as e:
        ctx.fail(f"{name} size {size} with {T} workers: {e}")
    ctx.step(r.steps)
    ctx.state(r.schedules)
    ctx.outcome(name, size, T, r.schedules, r.redundant)
    if not r.complete:
        ctx.cut = True


def cases_fail(tier):
    def gen():
        for T in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for name in ALL:
                for s in sizes(name, T, tier)[-2 if tier == "thorough" or T < 3 else -1:]:
                    for only in (0, 1):
                        # three workers: larger spaces, only the lasting failure
                        if tier == "thorough" or T < 3 or not only:
                            yield [name, s if tier == "thorough" or T < 3 or not name.startswith("ials") else 2, T, tier, only]
    return gen


def run_fail(ctx, case):
    from vf import sched

    name, size, T, tier, only = case
    want = reference(name, size)
    which, prep, call, again = scenario(name, size, T)
    mod = M[which][1]
    call(prep()) if prep else call()
    k = 0
    while True:
        k += 1
        hit = [False]
        obj = [None]

        def prepare():
            obj[0] = prep() if prep else None
            return obj[0]

        def judge(val, err, s):
            msg = f"{name} size {size} with {T} workers, creation of worker {k}{'' if only else ' and of the later ones'} fails, schedule {s}"
            if mod.lib.vf_failed():
                hit[0] = True
            elif err is not None:
                ctx.fail(f"{msg}: {type(err).__name__}: {err}, though nothing failed")
            if err is None:
                ctx.check(same(want, val, which == "C"), lambda: f"{msg}: {val} instead of an error or {want}")
            elif again:
                v = call(obj[0]) if prep else call()
                ctx.check(same(want, v, which == "C"), lambda: f"{msg}: raised {err}, but the next call gives {v} instead of {want}")
        try:
            r = sched.explore(mod, (lambda o: call(o)) if prep else (lambda o: call()), judge, prepare=prepare, limit=LIMIT[tier] // 4, fail=-k if only else k)
        except (sched.Raced, sched.Unfinished) as e:
            ctx.fail(f"{name} size {size} with {T} workers, creation of worker {k} fails: {e}")
        ctx.step(r.steps)
        ctx.state(r.schedules)
        if not r.complete:
            ctx.cut = True
        if not hit[0]:
            break
    ctx.outcome(name, size, T, k)


def cases_err(tier):
    def gen():
        for T in (2, 3):
            for kind in ("chol", "cholF", "cg", "pp"):
                for bad in (1, 2, 4, 3, 7):
                    yield [kind, bad, T, tier]
    return gen


def run_err(ctx, case):
    """rows whose system cannot be solved: as with one worker, in every schedule"""
    import numpy as np
    import scipy.sparse as sps

    from vf import alsref, sched

    kind, bad, T, tier = case
    which = "C"
    sk = {"chol": "CHOLESKY", "cholF": "CHOLESKY", "cg": "CG", "pp": "IALSPP"}[kind]
    X = np.ones((3, 2))
    for u in range(3):
        if bad >> u & 1:
            X[u] = np.nan
    cfg = dict(CFG)

    def prep():
        if kind == "cholF":
            t = alsref.core(np.ones((3, 2)), 2, cfg, sps.csr_matrix(grid(3, 2, salt=1).astype(np.float32)), None)
            t.user_feature_weight = alsref.factors(2, 2, 7)
        else:
            t = alsref.core(np.ones((3, 2)), 2, cfg)
        return t
    Xs = sps.csr_matrix(X.astype(np.float32))
    N = sps.csr_matrix(grid(3, 2, salt=2).astype(np.float32))

    def call(t, n):
        sc = alsref.solver(sk, n, cg=2, dim=2)
        return t.transform_user_with_feature(Xs, N, sc) if kind == "cholF" else t.transform_user(Xs, sc)

    def outcome(n):
        try:
            return call(prep(), n), None
        except Exception as e:
            return None, e
    want, werr = outcome(1)
    outcome(T)

    def judge(val, err, s):
        msg = f"{kind} fold-in with rows {[u for u in range(3) if bad >> u & 1]} unsolvable, {T} workers, schedule {s}"
        ctx.check(type(err) is type(werr), f"{msg}: {err!r}, with one worker {werr!r}")
        if err is None:
            ctx.check(same(want, val, which == "C"), lambda: f"{msg}: {val}, single-threaded {want}")
    try:
        r = sched.explore(M["C"][1], lambda t: call(t, T), judge, prepare=prep, limit=LIMIT[tier])
    except (sched.Raced, sched.Unfinished) as e:
        ctx.fail(f"{case}: {e}")
    ctx.step(r.steps)
    ctx.state(r.schedules)
    ctx.outcome(kind, bad, T, repr(werr), r.schedules)
    if not r.complete:
        ctx.cut = True


def families(tier):
    f = {
        "utilities": (cases_sched(UTIL)(tier), run_sched),
        "similarities": (cases_sched(KNN)(tier), run_sched),
        "evaluation": (cases_sched(EV)(tier), run_sched),
        "factorization": (cases_sched(STEP + LOSS + FOLD + SCORE)(tier), run_sched),
        "worker errors": (cases_err(tier), run_err),
        "spawn failures": (cases_fail(tier), run_fail),
    }
    if tier == "thorough":
        f["products"] = (lambda: ([n, s, 2, tier] for n in EV + STEP + LOSS + FOLD for s in (1, 2)), lambda ctx, case: run_sched(ctx, case, product=True))
    return f
