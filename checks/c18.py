"""C18: evaluation of cold users, with and without feature-only items."""
import itertools

LEVEL = "model_checking"
RULE = (
    "Every pair of (input history, ground truth) over 2 users x 3-4 items, every mask choice and every number of feature-only items, with scripted models "
    "that record what they are asked (with, without and with late-refused feature support, several layouts and float types) and real models, is evaluated "
    "for every chunk size and compared with the definitions applied to scores computed from each user's history."
)
ASSUMPTIONS = ["Scores are not NaN; the ground truth stores no explicit zeros.", "A model returns fresh score arrays."]
BOUNDS = {"quick": "2 users x 3 items (all 2^12 history/truth pairs) x 0..2 cold items x 4 masks x 5 model kinds; 3 users x 3 items patterned x chunk sizes 1..4 x layouts; 65..1025 users, default mini-batch; exact histories and one evaluator reused for many models",
          "thorough": "2 users x 4 items (2^16 pairs)"}
INF = float("inf")


def setup():
    from vf.load import install

    install()
    import irspack.evaluation  # noqa
    import irspack.recommenders  # noqa


KINDS = ["plain", "feat", "late", "prepared", "declines"]


def rec_class(kind, lay, dt, log):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders.base import BaseRecommender

    def lo(S):
        S = np.asarray(S, dtype=dt)
        if lay == "F":
            return np.array(S, order="F")
        if lay == "wide":
            B = np.full((S.shape[0], S.shape[1] + 2), 70.0, dtype=dt)
            B[:, 1:-1] = S
            return B[:, 1:-1]
        return np.array(S)

    class R(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, ui):
            raise AssertionError("cold-user evaluation asked for a training user")

        get_score_block = get_score

        def get_score_cold_user(self, X):
            D = sps.csr_matrix(X).toarray()
            log.append(("cold", D.shape[0]))
            return lo(cold_scores(D))

        if kind in ("feat", "late"):
            def get_score_cold_user_with_item_features(self, X, F):
                D = sps.csr_matrix(X).toarray()
                if kind == "late" and len([x for x in log if x[0] == "feat"]) >= 1:
                    raise NotImplementedError
                log.append(("feat", D.shape[0]))
                return lo(feat_scores(D, sps.csr_matrix(F).toarray()))
        if kind == "prepared":
            def _create_cold_user_with_item_features_scorer(self, F):
                log.append(("prepare",))
                Fd = sps.csr_matrix(F).toarray()
                return lambda X: lo(feat_scores(sps.csr_matrix(X).toarray(), Fd))
        if kind == "declines":
            def _create_cold_user_with_item_features_scorer(self, F):
                raise NotImplementedError

    return R


FINE = [False]  # scores that differ only in double precision


def fine(S):
    return 1.0 + S * 2.0**-40 if FINE[0] else S


def cold_scores(D):
    import numpy as np

    n = D.shape[1]
    W = np.asarray([[((a * 3 + b * 5) % 4) * 0.5 for b in range(n)] for a in range(n)])
    return fine(0.25 * (np.arange(n)[::-1] % 3)[None] + D @ W)


def feat_scores(D, F):
    import numpy as np

    w = np.asarray([[1.0 + (a + k) % 3 for k in range(F.shape[1])] for a in range(D.shape[1])])
    return np.concatenate([cold_scores(D), fine(0.5 + D @ w @ F.T)], axis=1)


def expected(D, GT, mask, F, has_feat, cutoffs, res, rwc):
    """reference metrics per cutoff"""
    from vf import metrics as M

    n, ni = D.shape
    nc = 0 if F is None else F.shape[0]
    tot = ni + nc
    out = {}
    S = cold_scores(D).tolist()
    if nc:
        S = feat_scores(D, F).tolist() if has_feat else [r + [-INF] * nc for r in S]
    allowed = [None] * n
    nr = tot
    if res == "global":
        allowed, nr = [[0, tot - 1]] * n, len({0, tot - 1})
    egt = [{i for i in range(tot) if GT[u, i]} & (set(range(tot)) if allowed[u] is None else set(allowed[u])) for u in range(n)]
    for c in cutoffs:
        recs = [M.rank(S[u], c, allowed[u], [i for i in range(mask.shape[1]) if mask[u, i]]) for u in range(n)]
        out[c] = M.aggregate(recs, egt, tot, nr, c if rwc else None)
    return out


def zeros(D):
    """D with every cell stored, the zero ones included"""
    import numpy as np
    import scipy.sparse as sps

    n, m = D.shape
    return sps.csr_matrix((np.asarray(D, dtype=float).ravel(), np.tile(np.arange(m), n), np.arange(n + 1) * m), shape=D.shape)


def cases(tier):
    def gen():
        ni = 4 if tier == "thorough" else 3
        for h in range(2 ** (2 * ni)):
            for g in range(2 ** (2 * ni)):
                yield ["all", ni, h, g]
        for kind in KINDS:
            for lay in ("C", "F", "wide"):
                for dt in ("float64", "float32"):
                    for mb in (1, 2, 3, 4):
                        for nc in (0, 1, 2):
                            yield ["lay", kind, lay, dt, mb, nc]
        for fmt in ("csr", "csc"):
            for th in (1, 2, 8):
                for mk in range(4):
                    for nc in (0, 1, 2):
                        yield ["fmt", fmt, th, mk, nc]
        for n in (65, 129, 257, 1023, 1025) + ((2049, 4097) if tier == "thorough" else ()):
            for mb in (1024, n - 1):
                yield ["size", n, mb]
        yield ["reject"]
    return gen


def one(ctx, kind, lay, dt, D, GT, mask_kind, nc, mb, th, rwc, res, fmt, msg, denseF=False):
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import EvaluatorWithColdUser
    from vf import metrics as M

    n, ni = D.shape
    F = np.asarray([[1.0 + (k + j) % 2 for j in range(3)] for k in range(nc)]).reshape(nc, 3) if nc else None
    tot = ni + nc
    mask_arg = None
    if mask_kind == 0:
        mask = D
    elif mask_kind == 1:  # training-item columns only
        mask = np.asarray([[(u + i) % 2 for i in range(ni)] for u in range(n)], dtype=float)
        mask_arg = mask
    elif mask_kind == 2:  # all columns
        mask = np.asarray([[(u + i) % 2 == 0 for i in range(tot)] for u in range(n)], dtype=float)
        mask_arg = mask
    else:
        mask = np.zeros((n, tot))
        mask_arg = mask
    X = sps.csr_matrix(D).asformat(fmt)
    G = sps.csr_matrix(GT).asformat(fmt)
    Fm = None if F is None else (F if denseF else sps.csr_matrix(F))
    if mask_arg is not None and (n + int(D.sum())) % 2:
        mask_arg = -mask_arg  # any stored non-zero value masks
    if kind in ("plain", "feat") and fmt == "csr" and nc != 1:
        # explicitly stored zeros are neither history nor mask
        X = zeros(D)
        mask_zero = True
    else:
        mask_zero = False
    X0, G0 = X.copy(), G.copy()
    kw = dict(cutoff=min(2, tot), n_threads=th, mb_size=mb, recall_with_cutoff=rwc)
    if mask_arg is not None:
        kw["masked_interactions"] = zeros(mask_arg) if mask_zero else sps.csr_matrix(mask_arg).asformat(fmt)
        M0 = kw["masked_interactions"].copy()
    if Fm is not None:
        kw["cold_item_features"] = Fm
    if res == "global":
        kw["recommendable_items"] = sorted({0, tot - 1})
    log = []
    model = rec_class(kind, lay, dt, log)(sps.csr_matrix(np.ones((4, ni))))
    ev = EvaluatorWithColdUser(X, G, **kw)
    has_feat = kind in ("feat", "prepared") or (kind == "late" and mb >= n)
    if kind == "late" and mb < n and nc:
        return  # mixed support is not specified
    want = expected(D, GT, mask, F, has_feat, range(1, tot + 1), res, rwc)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = ev.get_score(model)
        del log[:]
        M.compare(ctx, got, want[kw["cutoff"]], lambda: f"{msg}: get_score")
        cs = list(range(tot, 0, -1))
        got = ev.get_scores(model, cs)
        ctx.check(M.close(ev.get_target_score(rec_class(kind, lay, dt, [])(sps.csr_matrix(np.ones((4, ni))))), want[kw["cutoff"]]["ndcg"]), lambda: f"{msg}: target score")
    for c in cs:
        M.compare(ctx, got, want[c], lambda: f"{msg}: get_scores", M.NAMES, f"@{c}")
    # the same through the score-matrix route, which masks the same items
    S = cold_scores(D)
    if nc:
        S = feat_scores(D, F) if has_feat else np.concatenate([S, np.full((n, nc), -INF)], axis=1)
    S0 = S.copy()
    got = ev.get_scores_from_score_matrix(S, cs)
    for c in cs:
        M.compare(ctx, got, want[c], lambda: f"{msg}: score matrix", M.NAMES, f"@{c}")
    same = lambda a, b: a.format == b.format and a.nnz == b.nnz and np.array_equal(a.indices, b.indices) and np.array_equal(a.data, b.data) and np.array_equal(a.indptr, b.indptr)
    ctx.check(same(X, X0) and same(G, G0) and (mask_arg is None or same(kw["masked_interactions"], M0)), f"{msg}: a given matrix was modified")
    ctx.check(np.array_equal(S, S0) and np.array_equal(X.toarray(), X0.toarray()) and X.format == X0.format and np.array_equal(G.toarray(), G0.toarray())
              and (mask_arg is None or np.array_equal(kw["masked_interactions"].toarray(), mask_arg))
              and (Fm is None or np.array_equal(Fm if denseF else Fm.toarray(), F)), f"{msg}: an input was modified")
    ctx.outcome(want[1]["ndcg"], want[tot]["map"], tot)


def run(ctx, case):
    import numpy as np

    if case[0] == "reject":
        return reject(ctx)
    if case[0] == "all":
        _, ni, h, g = case
        D = np.asarray([[(h >> (u * ni + i) & 1) * (1.0 + i) for i in range(ni)] for u in range(2)])
        for nc in (0, 1, 2):
            GT = np.asarray([[(g >> (u * ni + i) & 1) for i in range(ni)] + [(g + u + k + h) % 3 == 0 for k in range(nc)] for u in range(2)], dtype=float)
            kind = KINDS[(h + g + nc) % 5]
            one(ctx, kind, "C", "float64", D, GT, (h + g // 3 + nc) % 4, nc, 1 + (h + g) % 3, 1 + g % 2, bool(h & 1), ["", "global"][g % 5 == 0], "csr",
                f"histories {D.tolist()}, truth {GT.tolist()}, {nc} cold items, {kind} model, mask {(h + g // 3 + nc) % 4}", denseF=bool(h & 2))
        return
    if case[0] == "size":
        _, n, mb = case
        D = np.asarray([[(u % 2) * 1.0, (u % 3 == 0) * 2.0, (u % 5 == 1) * 1.0] for u in range(n)])
        GT = np.asarray([[u % 2 == 0, u % 3 == 1, u % 5 < 3, u % 7 == 0] for u in range(n)], dtype=float)
        for nc, kind in ((0, "plain"), (1, "feat")):
            one(ctx, kind, "C", "float64", D, GT[:, : 3 + nc], 0, nc, mb, 2, False, "", "csr", f"{n} users, mini-batches of {mb}, {nc} cold items")
        return
    D = np.asarray([[1.0, 0.0, 2.0], [0.0, 0.0, 0.0], [0.0, 3.0, 0.0]])
    if case[0] == "lay":
        _, kind, lay, dt, mb, nc = case
        for mk in range(4):
            GT = np.asarray([[0, 1, 0, 1, 0], [1, 1, 0, 0, 1], [1, 0, 1, 1, 1]], dtype=float)[:, : 3 + nc]
            try:
                for FINE[0] in (False, True)[: 1 + (dt == "float64")]:
                    one(ctx, kind, lay, dt, D, GT, mk, nc, mb, 2, False, "", "csr", f"{case}, mask {mk}, fine {FINE[0]}", denseF=bool(mk & 1))
            finally:
                FINE[0] = False
    else:
        _, fmt, th, mk, nc = case
        for g in range(0, 512, 37):
            GT = np.asarray([[g >> (u * 3 + i) & 1 for i in range(3)] + [(g + u + k) % 2 for k in range(nc)] for u in range(3)], dtype=float)
            for kind in ("plain", "feat"):
                one(ctx, kind, "C", "float64", D, GT, mk, nc, 1 + g % 4, th, bool(g & 1), "", fmt, f"{case}, truth {GT.tolist()}")


def reject(ctx):
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import EvaluatorWithColdUser as E

    bad = (ValueError, TypeError, RuntimeError, IndexError, AssertionError)
    Z = lambda *s: sps.csr_matrix(s)
    F = sps.csr_matrix(np.ones((2, 3)))
    R = lambda fn, what: (ctx.step(), ctx.raises(bad, fn, what))
    R(lambda: E(Z(2, 3), Z(3, 3)), "different numbers of users")
    R(lambda: E(Z(3, 3), Z(3, 3), cold_item_features=F), "truth without the cold columns")
    R(lambda: E(Z(3, 3), Z(3, 4), cold_item_features=F), "truth with too few columns")
    R(lambda: E(Z(3, 3), Z(3, 6), cold_item_features=F), "truth with too many columns")
    R(lambda: E(Z(3, 3), Z(3, 5), masked_interactions=Z(3, 4), cold_item_features=F), "mask with wrong columns")
    R(lambda: E(Z(3, 3), Z(3, 5), masked_interactions=Z(2, 5), cold_item_features=F), "mask with wrong rows")
    R(lambda: E(Z(3, 3), Z(3, 3), masked_interactions=Z(3, 2)), "mask with wrong columns")
    for w in (2, 4, 5):
        m = rec_class("plain", "C", "float64", [])(Z(4, w))
        R(lambda: E(Z(3, 3), Z(3, 3), cutoff=1).get_score(m), f"model of {w} items, histories of 3")
        R(lambda: E(Z(3, 3), Z(3, 5), cutoff=1, cold_item_features=F).get_score(m), f"model of {w} items, histories of 3 with cold items")
    G = sps.csr_matrix(np.ones((3, 4)))
    m = rec_class("plain", "C", "float64", [])(Z(4, 3))
    R(lambda: E(Z(3, 3), G, cutoff=1).get_score(m), "truth wider than the histories without cold items")
    for c in (0, 6):
        R(lambda: E(Z(3, 3), Z(3, 5), cutoff=c, cold_item_features=F).get_score(m), f"cutoff {c}")


# ------------------------------------------------------------------ real models
REAL = [("TopPopRecommender", {}), ("CosineKNNRecommender", dict(top_k=2)), ("P3alphaRecommender", {}), ("RP3betaRecommender", {}), ("DenseSLIMRecommender", {}),
        ("IALSRecommender", dict(n_components=2, train_epochs=2)), ("FeatureIALS", dict(n_components=2, train_epochs=2, alpha0=0.2, reg=0.1))]


def real_cases(tier):
    def gen():
        for r in range(len(REAL)):
            for k in range(2 if tier == "quick" else 6):
                for nc in (0, 2):
                    yield [r, k, nc]
    return gen


def run_real(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    import irspack.recommenders as rs
    from irspack.evaluation import EvaluatorWithColdUser
    from vf import metrics as M

    r, k, nc = case
    name, kw = REAL[r]
    ni = 5
    X = sps.csr_matrix(np.asarray([[(u * 5 + i * (3 + k)) % 7 < 3 for i in range(ni)] for u in range(8)], dtype=float))
    F = sps.csr_matrix(np.asarray([[(i + j) % 3 for j in range(3)] for i in range(ni + nc)], dtype=float))
    if name.startswith("Feature"):
        m = rs.IALSRecommender(X, item_features=F[:ni], lambda_item_feature=0.5, **kw).learn()
    else:
        m = getattr(rs, name)(X, **kw).learn()
    H = sps.csr_matrix(np.asarray([[(u * 3 + i * 2 + k) % 5 < 2 for i in range(ni)] for u in range(6)], dtype=float))
    G = sps.csr_matrix(np.asarray([[(u * 2 + i + k) % 3 == 0 for i in range(ni + nc)] for u in range(6)], dtype=float))
    S = np.asarray(m.get_score_cold_user(H))
    if nc:
        if name.startswith("Feature"):
            S = np.asarray(m.get_score_cold_user_with_item_features(H, F[ni:]))
        else:
            S = np.concatenate([S, np.full((6, nc), -INF)], axis=1)
    S = S.copy()
    S[:, :ni][H.nonzero()] = -INF
    gts = [set(G[u].nonzero()[1]) for u in range(6)]
    for mb in (1, 2, 4, 10):
        ev = EvaluatorWithColdUser(H, G, cutoff=2, mb_size=mb, n_threads=2, **({"cold_item_features": F[ni:]} if nc else {}))
        got = ev.get_scores(m, [1, 2, 4])
        for c in (1, 2, 4):
            if _ambiguous(S):
                continue
            want = M.aggregate([M.rank(S[u], c) for u in range(6)], gts, ni + nc, ni + nc)
            M.compare(ctx, got, want, lambda: f"{name} pattern {k}, {nc} cold items, mb_size {mb}, cutoff {c}", M.NAMES, f"@{c}")
    ctx.outcome(case)


# -------------------------------------------- exact histories; one evaluator, many models
def exact_cases(tier):
    def gen():
        for p in itertools.permutations(range(4)):
            for q in range(24):
                for mb in (1, 2):
                    yield ["exact", p, q, mb]
        for ops in itertools.product(("A", "B", "train", "other", "matrix", "cut"), repeat=4 if tier == "thorough" else 3):
            for nc in (0, 1):
                yield ["reuse", ops, nc]
    return gen


VALUES = [[1.0, 1.0 + 2.0**-40, 1.0 - 2.0**-40, 1.0 + 2.0**-39], [1e300, 1e299, -1e300, 1e-300], [16777216.0, 16777217.0, 16777218.0, 16777215.0],
          [0.1, 0.1 + 2.0**-50, 0.3, -0.1]]


def run_exact(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import EvaluatorWithColdUser
    from irspack.recommenders.base import BaseRecommender
    from vf import metrics as M

    class R(BaseRecommender, register_class=False):
        shift = 1

        def _learn(self):
            pass

        def get_score(self, ui):
            raise AssertionError("a training user")

        def get_score_cold_user(self, X):
            return np.roll(sps.csr_matrix(X).toarray().astype(np.float64), self.shift, axis=1)

        def get_score_cold_user_with_item_features(self, X, F):
            return np.concatenate([self.get_score_cold_user(X), np.full((X.shape[0], len(F)), 1.0 + 2.0**-41 * self.shift)], axis=1)

    if case[0] == "exact":
        _, p, q, mb = case
        other = list(itertools.permutations(range(4)))[q]
        nc = 0
        D = np.asarray([[VALUES[q % 4][k] for k in p], [VALUES[(q + 1) % 4][k] for k in other], [VALUES[(q + 2) % 4][k] for k in p]])
    else:
        _, ops, nc = case
        mb = 2
        D = np.asarray([[VALUES[0][(k + u) % 4] for k in range(4)] for u in range(3)])
    GT = np.asarray([[(u + i) % 2 if i < 4 else 1 for i in range(4 + nc)] for u in range(3)], float)
    kw = dict(cold_item_features=np.ones((nc, 2))) if nc else {}
    ev = EvaluatorWithColdUser(sps.csr_matrix(D), sps.csr_matrix(GT), cutoff=2, n_threads=1, mb_size=mb, masked_interactions=sps.csr_matrix(GT.shape), **kw)
    X = sps.csr_matrix(np.ones((2, 4)))

    def cmp(got, rec, what, cuts=(2,), S=None):
        if S is None:
            S = np.roll(D, rec.shift, axis=1)
            if nc:
                S = np.concatenate([S, np.full((3, nc), 1.0 + 2.0**-41 * rec.shift)], axis=1)
        for c in cuts:
            want = M.aggregate([M.rank(S[u], c, None, []) for u in range(3)], [{i for i in range(4 + nc) if GT[u, i]} for u in range(3)], 4 + nc)
            M.compare(ctx, got, want, lambda: f"{case}: {what}", [x for x in M.NAMES if x != "catalog_coverage"], f"@{c}" if len(cuts) > 1 else "")

    if case[0] == "exact":
        r = R(X)
        cmp(ev.get_score(r), r, f"histories {D.tolist()}")
        cs = [4, 3, 2, 1]
        cmp(ev.get_scores(r, cs), r, f"histories {D.tolist()}", cs)
    else:
        m = {"A": R(X), "B": R(X)}
        m["B"].shift = 2
        for op in list(ops) + ["A"]:
            if op in m:
                cmp(ev.get_score(m[op]), m[op], f"model {op}")
            elif op == "train":
                m["A"].shift = m["A"].shift % 3 + 1
            elif op == "other":
                s = m["A"].shift
                m["A"] = R(sps.csr_matrix(np.eye(2, 4)))
                m["A"].shift = s % 3 + 1
            elif op == "matrix":
                S = np.asarray([[(u + i * 3) % 5 for i in range(4 + nc)] for u in range(3)], float)
                cmp(ev.get_score_from_score_matrix(S), None, "score matrix", S=S)
            else:
                cs = [3, 1, 2]
                got = ev.get_scores(m["B"], cs)
                ctx.eq(cs, [3, 1, 2], "the caller's list of cutoffs")
                cmp(got, m["B"], "cutoffs", cs)
    ctx.step(2)
    ctx.outcome(case)


def _ambiguous(S):
    import numpy as np

    for row in S:
        d = np.diff(np.sort(row[np.isfinite(row)]))
        if ((d > 0) & (d < 1e-6)).any() or ((d == 0) & (np.abs(np.sort(row[np.isfinite(row)])[1:]) % 1 > 0)).any():
            return True
    return False


def families(tier):
    return {"exact": (exact_cases(tier), run_exact), "scripted": (cases(tier), run), "real": (real_cases(tier), run_real)}
