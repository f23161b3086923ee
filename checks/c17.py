"""C17: routes, chunks, threads, layouts."""
import itertools

LEVEL = "model_checking"
RULE = (
    "For scripted models (all seen patterns) and real models, the metrics of every composition of the users into streamed blocks, every chunk size, "
    "thread count, float type, memory layout, order of cutoffs, offset and entry point are compared with one reference computed from the definitions; "
    "inputs, ground truth and model are compared bit by bit before and after, and malformed calls must be refused."
)
ASSUMPTIONS = ["A model returns fresh score arrays (the evaluator may write the mask into them).", "Scores are not NaN; the ground truth stores no explicit zeros."]
BOUNDS = {"quick": "5-6 users x 4 items; 5-row compositions (16, and with empty blocks), chunk sizes 1..7, threads 1,2,3,8, 5 layouts, offsets 0..3; 2^8 seen patterns; 9 real models; 33..1025 users x 4 mini-batch sizes around them; catalogues up to thousands of items; one evaluator reused for many models and cutoff lists",
          "thorough": "7-row compositions, 2^12 seen patterns"}
INF = float("inf")


def setup():
    from vf.load import install

    install()
    import irspack.evaluation  # noqa
    import irspack.recommenders  # noqa


def csr(rows, n, fmt="csr"):
    import numpy as np
    import scipy.sparse as sps

    X = np.zeros((len(rows), n))
    for u, r in enumerate(rows):
        for i in r:
            X[u, i] = 1 + (u + i) % 3
    return sps.csr_matrix(X).asformat(fmt)


def table(nu, ni, k=0, fine=False):
    """fine: scores that differ only in double precision"""
    import numpy as np

    T = np.asarray([[((u * 7 + i * 3 + k) % 5) * 0.5 for i in range(ni)] for u in range(nu)])
    T = 1.0 + T * 2.0**-40 if fine else T
    T[1 % nu, :] = 1.0
    T[3 % nu, 1 % ni] = -INF
    T[2 % nu, 0] = INF
    return T


def gt_rows(nu, ni, k=0):
    return [[i for i in range(ni) if (u * 5 + i * 3 + k) % 4 < 2 and u % 4 != 2] for u in range(nu)]


def rec_class(kind, lay, dt):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders.base import BaseRecommender

    def out(S):
        S = np.asarray(S, dtype=dt)
        if lay == "F":
            return np.array(S, order="F")
        if lay == "wide":
            B = np.full((S.shape[0], S.shape[1] + 3), 50.0, dtype=dt)
            B[:, 2:-1] = S
            return B[:, 2:-1]
        if lay == "strided":
            B = np.full((S.shape[0] * 2, S.shape[1] * 2), 50.0, dtype=dt)
            B[::2, ::2] = S
            return B[::2, ::2]
        if lay == "flip":
            return np.array(S[::-1])[::-1]
        return np.array(S)

    class R(BaseRecommender, register_class=False):
        def __init__(self, X, T):
            super().__init__(X)
            self.T = T
            self.calls = []

        def _learn(self):
            pass

        def get_score(self, ui):
            return out(self.T[np.asarray(ui)])

        if kind == "block":
            def get_score_block(self, b, e):
                return out(self.T[b:e])

        def get_score_cold_user(self, X):
            return out(sps.csr_matrix(X).toarray() @ np.ones((self.n_items, self.n_items)))

    return R


def reference(T, X, gts, ni, cutoffs, off, mask, res, rwc):
    from vf import metrics as M

    n = len(gts)
    nr = ni
    R = [None] * n
    if res == "global":
        R, nr = [[0, 2, 3]] * n, 3
    elif res == "per":
        R = [[i for i in range(ni) if (i + u) % 3] for u in range(n)]
        nr = len({i for x in R for i in x})
    egt = [set(g) if r is None else set(g) & set(r) for g, r in zip(gts, R)]
    out = {}
    for c in cutoffs:
        recs = []
        for u in range(n):
            m = mask[u] if mask is not None else ([i for i in range(ni) if X[u + off, i]] if X is not None else ())
            recs.append(M.rank(T[u + off], c, R[u], m))
        out[c] = M.aggregate(recs, egt, ni, nr, c if rwc else None)
    return out


def ev_kwargs(n, ni, mask, res, rwc, th, mb, off, cutoff):
    kw = dict(offset=off, cutoff=cutoff, n_threads=th, recall_with_cutoff=rwc, mb_size=mb)
    if res == "global":
        kw["recommendable_items"] = [3, 0, 2]
    elif res == "per":
        kw["per_user_recommendable_items"] = [[i for i in range(ni) if (i + u) % 3] for u in range(n)]
    if mask is not None:
        kw["masked_interactions"] = csr(mask, ni)
    return kw


# ------------------------------------------------------------------ model route
def model_cases(tier):
    def gen():
        for kind in ("block", "get"):
            for lay in ("C", "F", "wide", "strided", "flip"):
                for dt in ("float64", "float32"):
                    for mb in range(1, 8):
                        for th in (1, 2, 3, 8):
                            yield ["lay", kind, lay, dt, mb, th]
        for n in (33, 65, 127, 129, 255, 257, 511, 513, 1023, 1025) + ((2049, 4097) if tier == "thorough" else ()):
            for mb in (1024, 128, n - 1, n):
                yield ["size", n, mb]
        for n in (33, 65, 101, 129, 257, 300, 1025):
            for mb in (1, 3):
                yield ["items", n, mb]
        for x in range(0, 2 ** (12 if tier == "thorough" else 8)):
            yield ["seen", x]
        for off in range(4):
            for mb in (1, 2, 3, 6):
                for res in (None, "global", "per"):
                    for mk in (None, "mask"):
                        for fmt in ("csr", "csc"):
                            yield ["off", off, mb, res, mk, fmt]
    return gen


def check_model(ctx, model, T, X, off, n, ni, mask, res, rwc, th, mb, msg, fmt="csr", k=0, cuts=(3, 1, 4, 2)):
    import numpy as np

    from irspack.evaluation import Evaluator
    from vf import metrics as M

    gts = gt_rows(n, ni, k)
    G = csr(gts, ni, fmt)
    G0 = G.copy()
    X0 = model.X_train_all.copy()
    cuts = list(cuts)
    want = reference(T, X, gts, ni, cuts, off, mask, res, rwc)
    kw = ev_kwargs(n, ni, mask, res, rwc, th, mb, off, 2)
    ev = Evaluator(G, **kw)
    got = ev.get_score(model)
    M.compare(ctx, got, want[2], lambda: f"{msg}: get_score")
    for cs in (cuts, [1], [2, 2, 1]):
        got = ev.get_scores(model, cs)
        ctx.eq(len(got), len(set(cs)) * len(M.NAMES), f"{msg}: number of metrics")
        for c in cs:
            M.compare(ctx, got, want[c], lambda: f"{msg}: get_scores({cs})", M.NAMES, f"@{c}")
    for t in ("ndcg", "recall", "hit", "map", "precision"):
        e2 = Evaluator(G, target_metric=t, **dict(kw, cutoff=3))
        v = e2.get_target_score(model)
        ctx.check(M.close(v, want[3][t]), lambda: f"{msg}: target {t} is {v}, expected {want[3][t]}")
        ctx.eq(e2.target_metric_name, f"{t}@3", f"{msg}: target name")
    ctx.check((G != G0).nnz == 0 and G.format == G0.format and (model.X_train_all != X0).nnz == 0, f"{msg}: the ground truth or the training matrix was modified")
    g2 = ev.core.get_ground_truth()
    ctx.check(g2.shape == G.shape and abs(g2 - G).nnz == 0, f"{msg}: stored ground truth")
    M.compare(ctx, ev.get_score(model), want[2], lambda: f"{msg}: repeated get_score")


def run_model(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    ni = 4
    if case[0] == "lay":
        _, kind, lay, dt, mb, th = case
        n = 6
        for fine in (False, True)[: 1 + (dt == "float64")]:
            T = table(n, ni, 0, fine)
            Xr = [[(u * 2) % 4] if u % 2 else [] for u in range(n)]
            m = rec_class(kind, lay, dt)(csr(Xr, ni), T)
            T0 = T.copy()
            check_model(ctx, m, T, m.X_train_all.toarray(), 0, n, ni, None, None, False, th, mb, f"{case}, fine {fine}")
            ctx.check(np.array_equal(m.T, T0), f"{case}: the model was modified")
    elif case[0] == "size":
        _, n, mb = case
        T = table(n, ni, 1)
        m = rec_class(("block", "get")[n % 4 == 3], "C", "float64")(csr([[(u * 2) % 4] if u % 2 else [] for u in range(n)], ni), T)
        check_model(ctx, m, T, m.X_train_all.toarray(), 0, n, ni, None, [None, "per"][mb == n], False, 2, mb, f"{n} users, mini-batches of {mb}")
    elif case[0] == "items":
        _, N, mb = case
        T = table(4, N, 1) + np.arange(N)[None, ::-1] * 2.0**-20
        m = rec_class(("block", "get")[N % 4 == 1], "C", "float64")(csr([[(u * 2) % 4, N - 1] if u % 2 else [] for u in range(4)], N), T)
        check_model(ctx, m, T, m.X_train_all.toarray(), 0, 4, N, None, [None, "per"][mb == 3], False, 2, mb, f"{N} items, mini-batches of {mb}", cuts=(3, 1, N, 2, N // 2))
    elif case[0] == "seen":
        x = case[1]
        n = 3
        X = np.asarray([[x >> (u * ni + i) & 1 for i in range(ni)] for u in range(n)], dtype=float)
        T = table(n, ni, x % 3)
        m = rec_class("block", "C", "float64")(sps.csr_matrix(X), T)
        check_model(ctx, m, T, X, 0, n, ni, None, [None, "per", "global"][x % 3], bool(x & 1), 1 + x % 3, 1 + x % 4, f"{case}", k=x % 4)
    else:
        _, off, mb, res, mk, fmt = case
        n, N = 4, 7
        T = table(N, ni)
        Xr = [[u % 4, (u + 2) % 4] if u % 3 else [] for u in range(N)]
        m = rec_class("block", "C", "float64")(csr(Xr, ni, fmt), T)
        mask = [[(u + 1) % 4] if u != 2 else [] for u in range(n)] if mk else None
        check_model(ctx, m, T, m.X_train_all.toarray(), off, n, ni, mask, res, off % 2 == 1, 2, mb, f"{case}", fmt)
    ctx.outcome(case)


# ------------------------------------------------------------------- streamed
def compositions(n):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield [k] + r


def stream_cases(tier):
    def gen():
        n = 7 if tier == "thorough" else 5
        comps = list(compositions(n))
        for b in comps:
            for lay in ("C", "F", "wide", "strided", "flip"):
                for dt in ("float64", "float32", "alternate"):
                    for mk in (None, "mask"):
                        yield ["comp", n, b, lay, dt, mk]
        for b in comps:
            for z in range(len(b) + 1):
                yield ["comp", n, b[:z] + [0] + b[z:], "C", "float64", "mask"]
        for mb in range(1, n + 2):
            for lay in ("C", "F", "wide", "strided", "flip"):
                for dt in ("float64", "float32"):
                    for th in (1, 2, 8):
                        yield ["matrix", n, mb, lay, dt, th]
        yield ["reject"]
    return gen


def lay_out(S, lay):
    import numpy as np

    if lay == "F":
        return np.asfortranarray(S)
    if lay == "wide":
        B = np.full((S.shape[0] + 1, S.shape[1] + 3), 50.0, dtype=S.dtype)
        B[1:, 2:-1] = S
        return B[1:, 2:-1]
    if lay == "strided":
        B = np.full((S.shape[0] * 2, S.shape[1] * 2), 50.0, dtype=S.dtype)
        B[::2, ::2] = S
        return B[::2, ::2]
    if lay == "flip":
        return np.array(S[::-1])[::-1]
    return S


def run_stream(ctx, case):
    import numpy as np

    from irspack.evaluation import Evaluator, EvaluatorWithColdUser
    from vf import metrics as M

    ni = 4
    if case[0] == "reject":
        return run_reject(ctx)
    n = case[1]
    T = table(n, ni, 1, case[0] == "comp" and case[4] == "float64" and len(case[2]) % 2 == 0)
    gts = gt_rows(n, ni, 1)
    if case[0] == "comp":
        _, _, blocks, lay, dt, mk = case
        mask = [[(u + 1) % 4] if u != 2 else [] for u in range(n)] if mk else None
        want = reference(T, None, gts, ni, [1, 2, 3, 4], 0, mask, None, False)
        ev = Evaluator(csr(gts, ni), **ev_kwargs(n, ni, mask, None, False, 1 + len(blocks) % 3, 2, 0, 3))
        ch, at = [], 0
        for k, b in enumerate(blocks):
            d = (np.float32 if k % 2 else np.float64) if dt == "alternate" else np.dtype(dt)
            ch.append(lay_out(T[at:at + b].astype(d), lay))
            at += b
        keep = [c.copy() for c in ch]
        for c in ch:
            c.setflags(write=False)
        M.compare(ctx, ev.get_score_from_score_chunks(iter(ch)), want[3], lambda: f"{case}: get_score_from_score_chunks")
        got = ev.get_scores_from_score_chunks(ch, [4, 1, 2])
        for c in (4, 1, 2):
            M.compare(ctx, got, want[c], lambda: f"{case}: get_scores_from_score_chunks", M.NAMES, f"@{c}")
        for a, b in zip(ch, keep):
            ctx.check(np.array_equal(a, b), f"{case}: a streamed block was modified")
        # one buffer reused for every block
        def reuse():
            buf = np.empty((max(blocks), ni))
            at = 0
            for b in blocks:
                buf[:b] = T[at:at + b]
                at += b
                yield buf[:b]
        M.compare(ctx, ev.get_score_from_score_chunks(reuse()), want[3], lambda: f"{case}: chunks from a reused buffer")
    else:
        _, _, mb, lay, dt, th = case
        mask = [[u % 4] for u in range(n)] if mb % 2 else None
        want = reference(T, None, gts, ni, [1, 2, 3, 4], 0, mask, "per", True)
        ev = Evaluator(csr(gts, ni), **ev_kwargs(n, ni, mask, "per", True, th, mb, 0, 2))
        S = lay_out(T.astype(dt), lay)
        keep = S.copy()
        M.compare(ctx, ev.get_score_from_score_matrix(S), want[2], lambda: f"{case}: get_score_from_score_matrix")
        got = ev.get_scores_from_score_matrix(S, [3, 4, 1])
        for c in (3, 4, 1):
            M.compare(ctx, got, want[c], lambda: f"{case}: get_scores_from_score_matrix", M.NAMES, f"@{c}")
        ctx.check(np.array_equal(S, keep), f"{case}: the score matrix was modified")
    ctx.outcome(case)


def run_reject(ctx):
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import Evaluator

    bad = (ValueError, TypeError, RuntimeError, IndexError, KeyError, AssertionError, OverflowError)
    n, ni = 3, 4
    G = csr(gt_rows(n, ni), ni)
    ev = Evaluator(G, cutoff=2, n_threads=2)
    T = table(n, ni)
    R = lambda fn, what: (ctx.step(), ctx.raises(bad, fn, what))
    for shp in ((2, 4), (4, 4), (3, 3), (3, 5), (0, 4), (3, 0)):
        R(lambda: ev.get_score_from_score_matrix(np.zeros(shp)), f"score matrix of shape {shp}")
        R(lambda: ev.get_scores_from_score_matrix(np.zeros(shp), [1]), f"score matrix of shape {shp}")
        if shp != (3, 0) and shp[1] != 4 or shp[0] != 3:
            R(lambda: ev.get_score_from_score_chunks([np.zeros(shp)]), f"chunk of shape {shp}")
    R(lambda: ev.get_score_from_score_matrix(np.zeros(4)), "1-d scores")
    R(lambda: ev.get_score_from_score_matrix(np.zeros((3, 4, 1))), "3-d scores")
    for dt in (np.int64, np.float16, bool, object, np.complex128):
        R(lambda: ev.get_score_from_score_matrix(np.zeros((3, 4)).astype(dt)), f"scores of type {dt}")
        R(lambda: ev.get_score_from_score_chunks([np.zeros((3, 4)).astype(dt)]), f"chunks of type {dt}")
    for blocks in ([2], [1, 1], [4], [3, 1], [1, 1, 1, 1], [2, 2], []):
        R(lambda: ev.get_score_from_score_chunks([np.zeros((b, 4)) for b in blocks]), f"blocks {blocks} for 3 users")
    R(lambda: ev.get_score_from_score_chunks([np.zeros((1, 4)), np.zeros((2, 3))]), "narrow block")
    R(lambda: ev.get_score_from_score_chunks([[[0.0] * 4] * 3]), "list block")
    for c in (0, -1, 5, 100):
        R(lambda: ev.get_scores_from_score_matrix(T, [c]), f"cutoff {c}")
        R(lambda: Evaluator(G, cutoff=c).get_score_from_score_matrix(T), f"cutoff {c}")
    R(lambda: Evaluator(G, cutoff=2, n_threads=0).get_score_from_score_matrix(T), "0 threads")
    R(lambda: Evaluator(G, target_metric="nope"), "unknown target metric")
    for shp in ((3, 3), (2, 4), (4, 4), (3, 5)):
        R(lambda: Evaluator(G, masked_interactions=sps.csr_matrix(shp)), f"mask of shape {shp}")
    R(lambda: Evaluator(G, recommendable_items=[0, 0]), "duplicate recommendable items")
    R(lambda: Evaluator(G, recommendable_items=[4]), "recommendable item out of range")
    R(lambda: Evaluator(G, recommendable_items=[-1]), "negative recommendable item")
    R(lambda: Evaluator(G, per_user_recommendable_items=[[0], [1]]), "too few recommendable lists")
    R(lambda: Evaluator(G, per_user_recommendable_items=[[0]]), "too few recommendable lists")
    R(lambda: Evaluator(G, per_user_recommendable_items=[[0]] * 4), "too many recommendable lists")
    R(lambda: Evaluator(G, per_user_recommendable_items=[[0], [1, 1], [2]]), "duplicates")
    R(lambda: Evaluator(G, per_user_recommendable_items=[[0], [1], [4]]), "out of range")
    for rows, width, off in ((2, 4, 0), (3, 4, 1), (3, 3, 0), (3, 5, 0), (5, 4, 3)):
        m = rec_class("block", "C", "float64")(sps.csr_matrix((rows, width)), np.zeros((rows, width)))
        R(lambda: Evaluator(G, offset=off, cutoff=2).get_score(m), f"model with {rows} users, {width} items, offset {off}")
    # a model whose scores do not have n_items columns
    for w in (3, 5):
        m = rec_class("block", "C", "float64")(sps.csr_matrix((3, 4)), np.zeros((3, w)))
        R(lambda: Evaluator(G, cutoff=2).get_score(m), f"scores with {w} columns")
    for dt in ("int64", "float16", "complex128"):
        for kind in ("block", "score"):
            m = rec_class(kind, "C", dt)(sps.csr_matrix((3, 4)), np.zeros((3, 4)))
            R(lambda: Evaluator(G, cutoff=2).get_score(m), f"{dt} scores of a model ({kind})")
            R(lambda: Evaluator(G, cutoff=2).get_scores(m, [1, 2]), f"{dt} scores of a model ({kind})")
            R(lambda: Evaluator(G, cutoff=2).get_target_score(m), f"{dt} scores of a model ({kind})")


# ------------------------------------------------------------------ real models
REAL = [("TopPopRecommender", {}), ("CosineKNNRecommender", dict(top_k=2)), ("CosineUserKNNRecommender", dict(top_k=2)), ("P3alphaRecommender", {}),
        ("RP3betaRecommender", {}), ("DenseSLIMRecommender", {}), ("SLIMRecommender", {}), ("IALSRecommender", dict(n_components=2, train_epochs=2)),
        ("TruncatedSVDRecommender", dict(n_components=2)), ("NMFRecommender", dict(n_components=2))]


def real_cases(tier):
    def gen():
        for r in range(len(REAL)):
            for k in range(3 if tier == "quick" else 6):
                yield [r, k]
    return gen


def run_real(ctx, case):
    import numpy as np

    import irspack.recommenders as rs
    from vf import metrics as M
    from irspack.evaluation import Evaluator

    r, k = case
    name, kw = REAL[r]
    N, ni = 9, 6
    Xr = [[i for i in range(ni) if (u * 5 + i * (3 + k)) % 7 < 3] for u in range(N)]
    m = getattr(rs, name)(csr(Xr, ni), **kw).learn()
    T = np.asarray(m.get_score(np.arange(N)), dtype=np.float64)
    T = np.round(T, 6)
    X = m.X_train_all.toarray()
    for off, n in ((0, 9), (2, 5), (8, 1)):
        gts = gt_rows(n, ni, k)
        for mb in (1, 2, 4, 9, 100):
            for th in (1, 3):
                ev = Evaluator(csr(gts, ni), offset=off, cutoff=3, mb_size=mb, n_threads=th)
                got = ev.get_scores(m, [1, 2, 3, 6])
                # the model's own scores, rows recomputed for this offset
                S = np.asarray(m.get_score(np.arange(off, off + n)))
                S[X[off:off + n].nonzero()] = -INF
                for c in (1, 2, 3, 6):
                    # numerically equal scores may swap between routes: compare only when the ranking is clear
                    if _ambiguous(S, c):
                        continue
                    want = M.aggregate([M.rank(S[u], c) for u in range(n)], [set(g) for g in gts], ni, ni)
                    M.compare(ctx, got, want, lambda: f"{name}({kw}) pattern {k}, offset {off}, {n} users, mb_size {mb}, {th} threads, cutoff {c}", M.NAMES, f"@{c}")
    S2 = np.asarray(m.get_score(np.arange(N)))
    ctx.check(np.allclose(S2, T, atol=1e-5), f"{name}: evaluation changed the model's scores")
    ctx.outcome(case)


# ------------------------------------------------------ one evaluator, many evaluations
OPS = ("A", "B", "train", "other", "matrix", "chunks", "cut")


def reuse_cases(tier):
    def gen():
        for ops in itertools.product(OPS, repeat=4 if tier == "thorough" else 3):
            for how in ("plain", "mask", "per"):
                yield [ops, how]
    return gen


def run_reuse(ctx, case):
    """Each evaluation with one evaluator speaks about the model as it is then, whatever was evaluated before."""
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import Evaluator
    from vf import metrics as M

    ops, how = case
    n, ni = 4, 4
    gts = gt_rows(n, ni, 1)
    mask = [[(u + 1) % 4] for u in range(n)] if how == "mask" else None
    res = "per" if how == "per" else None
    ev = Evaluator(csr(gts, ni), **ev_kwargs(n, ni, mask, res, False, 2, 3, 0, 2))
    cls = rec_class("block", "C", "float64")
    tabs = {"A": np.asarray([[(u * 3 + i * 5) % 7 for i in range(ni)] for u in range(n)], float),
            "B": np.asarray([[(u * 5 + i * 2 + 3) % 7 for i in range(ni)] for u in range(n)], float)}
    m = {"A": cls(csr([[u % 4] for u in range(n)], ni), tabs["A"].copy()), "B": cls(csr([[(u + 2) % 4, 3] if u != 2 else [] for u in range(n)], ni), tabs["B"].copy())}
    S = tabs["B"][::-1].copy()

    def cmp(got, T, X, what, cut=None):
        want = reference(T, X, gts, ni, [cut or 2], 0, mask, res, False)[cut or 2]
        M.compare(ctx, got, want, lambda: f"{how}, operations {ops}: {what}", M.NAMES, f"@{cut}" if cut else "")

    for op in list(ops) + ["A"]:
        if op in m:
            cmp(ev.get_score(m[op]), m[op].T, m[op].X_train_all.toarray(), f"model {op}")
        elif op == "train":  # the model is trained further
            m["A"].T[:] = np.roll(m["A"].T, 1, axis=1) * 2
        elif op == "other":  # a new model takes the place of the old one
            m["A"] = cls(csr([[(u + 1) % 4] for u in range(n)], ni), np.roll(m["A"].T, 1, axis=0).copy())
        elif op == "matrix":
            cmp(ev.get_score_from_score_matrix(S), S, None, "score matrix")
            S[:] = np.roll(S, 1, axis=1)
        elif op == "chunks":
            cmp(ev.get_score_from_score_chunks([S[:1], S[1:]]), S, None, "chunks")
        else:
            cs = [3, 1, 2]
            got = ev.get_scores(m["B"], cs)
            ctx.eq(cs, [3, 1, 2], "the caller's list of cutoffs")
            for c in cs:
                cmp(got, m["B"].T, m["B"].X_train_all.toarray(), f"cutoff {c}", c)
    ctx.step(len(ops))
    ctx.outcome(case)


def _ambiguous(S, c):
    import numpy as np

    for row in S:
        f = np.sort(row[np.isfinite(row)])
        d = np.diff(f)
        if ((d > 0) & (d < 1e-7)).any() or ((d == 0) & (np.abs(f[1:]) % 1 > 0)).any():
            return True
    return False


def families(tier):
    return {"reuse": (reuse_cases(tier), run_reuse), "model": (model_cases(tier), run_model), "streamed": (stream_cases(tier), run_stream), "real": (real_cases(tier), run_real)}
