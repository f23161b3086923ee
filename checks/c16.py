"""C16: metric values against the definitions."""
import itertools

from vf.scale import LARGE, MEDIUM, SMALL

LEVEL = "model_checking"
RULE = (
    "Every score row over {-inf, 0, 1, 2, +inf} x ground truth x restriction x mask x recall option x cutoff for one user, all pairs of users from a "
    "set of (scores, ground truth) rows, all ground truths of up to 6 items at every cutoff and every number of scoreable items, and larger patterned "
    "matrices are evaluated by the real evaluator and compared with the definitions written out in Python."
)
ASSUMPTIONS = ["Scores are not NaN; the ground truth stores no explicit zeros.", "Precision, ideal DCG and the recall-with-cutoff denominator use the length of the user's recommendation list when fewer items than the cutoff can be recommended."]
BOUNDS = {"quick": "1 user x 3 items x 5 score values (all), 2 users x 128 rows each (all pairs), 1 user x 6 items, 20 users x 30 items; up to 100001 users and 1025 items at 28 boundary sizes",
          "thorough": "1 user x 4 items x 5 score values, 2 users x 232 rows, 1 user x 8 items"}
INF = float("inf")
ALPHA = [-INF, 0.0, 1.0, 2.0, INF]


def setup():
    from vf.load import install

    install()
    import irspack.evaluation  # noqa


def subsets(n):
    for m in range(2**n):
        yield [i for i in range(n) if m >> i & 1]


def csr(rows, n, shuffled=False, signed=False, zeros=()):
    import numpy as np
    import scipy.sparse as sps

    X = np.zeros((len(rows), n))
    for u, r in enumerate(rows):
        for i in r:
            X[u, i] = (1 + (u + i) % 3) * (-1 if signed and (u + i) % 2 else 1)
    for u, i in zeros:  # entries that are stored, but zero
        assert not X[u, i]
        X[u, i] = -99
    X = sps.csr_matrix(X)
    X.data[X.data == -99] = 0
    if shuffled:  # the same matrix with every row's entries stored in another order
        for u in range(X.shape[0]):
            a, b = X.indptr[u], X.indptr[u + 1]
            o = sorted(range(b - a), key=lambda k: (k * 7 + 3) % 5 * 1000 - k)
            X.indices[a:b], X.data[a:b] = X.indices[a:b][o], X.data[a:b][o]
        X.has_sorted_indices = False
    return X


# --------------------------------------------------------------------- one user
def one_cases(tier):
    def gen():
        n = 4 if tier == "thorough" else 3
        for gt in subsets(n):
            for r in itertools.chain([None], subsets(n)):
                for m in itertools.chain([None], subsets(n)):
                    if n == 4 and r is not None and m is not None and (sum(r) + sum(m)) % 2:
                        continue
                    yield [n, gt, r, m]
    return gen


def run_one(ctx, case):
    import numpy as np

    from irspack.evaluation import Evaluator
    from vf import metrics as M

    n, gt, r, m = case
    gtm = csr([gt], n)
    evs = []
    for rwc in (False, True):
        for per in ((False,) if r is None else (False, True)):
            kw = dict(cutoff=1 + (len(gt) + (r is not None)) % n, recall_with_cutoff=rwc, n_threads=1 + rwc, target_metric="ndcg")
            if r is not None:
                kw["per_user_recommendable_items" if per else "recommendable_items"] = [list(r)[::-1]] if per else list(r)[::-1]
            if m is not None:
                kw["masked_interactions"] = csr([m], n, signed=True)
            evs.append((rwc, Evaluator(gtm, **kw)))
    cuts = list(range(1, n + 1))
    egt = set(gt) if r is None else set(gt) & set(r)
    nr = n if r is None else len(r)
    for row in itertools.product(ALPHA, repeat=n):
        sc = {c: M.rank(row, c, r, m or ()) for c in cuts}
        want = {(c, w): M.aggregate([sc[c]], [egt], n, nr, c if w else None) for c in cuts for w in (False, True)}
        for k, (rwc, ev) in enumerate(evs):
            S = np.asarray([row], dtype=np.float32 if (k + int(min(row[0], 3) > 0)) % 2 else np.float64)
            got = ev.get_scores_from_score_matrix(S, cuts)
            for c in cuts:
                M.compare(ctx, got, want[c, rwc], lambda: f"scores {row}, ground truth {gt}, recommendable {r}, masked {m}, cutoff {c}, recall_with_cutoff={rwc}", M.NAMES, f"@{c}")
            got = ev.get_score_from_score_matrix(S)
            M.compare(ctx, got, want[ev.cutoff, rwc], lambda: f"scores {row}, ground truth {gt}, recommendable {r}, masked {m}, default cutoff {ev.cutoff}, recall_with_cutoff={rwc}")
    ctx.outcome(case)


# ------------------------------------------------------------------- two users
def rows_of(tier):
    base = [(0, 1, 2), (2, 1, 0), (1, 1, 1), (0, 1, 1), (2, 0, 2), (1, -INF, 2), (-INF, -INF, 0), (-INF, -INF, -INF), (1, 2, 0), (1, 0, 2), (-INF, 0, 0), (2, 0, 1), (0, 2, 1), (0, -INF, 0), (INF, 1, INF), (0.5, 0.25, -INF)]
    base = [tuple(float(x) for x in b) for b in base]
    if tier == "thorough":
        base += [tuple(float(x) for x in b) for b in itertools.product((0, 1), repeat=3) if b != (1, 1, 1)] + [(3.0, -1.0, -2.0), (-5.0, -4.0, -5.0), (-INF, 7.0, -INF), (-INF, -INF, -9.0), (7.0, -INF, -INF), (1.0, 2.0, 2.0)]
    return [(s, g) for s in base for g in subsets(3)]


def two_cases(tier):
    def gen():
        n = len(rows_of(tier))
        for a in range(n):
            for part in range(4):
                yield [tier, a, part]
    return gen


def run_two(ctx, case):
    import numpy as np

    from irspack.evaluation import Evaluator
    from vf import metrics as M

    tier, a, part = case
    R = rows_of(tier)
    sa, ga = R[a]
    opts = [dict(), dict(recommendable_items=[2, 0]), dict(per_user_recommendable_items=[[0, 1], [1, 2]]), dict(recall_with_cutoff=True, masked_interactions=csr([[1], [0]], 3, signed=True))]
    for b in range(part, len(R), 4):
        sb, gb = R[b]
        kw = dict(opts[(a + b // 4) % 4])
        S = np.asarray([sa, sb])
        ev = Evaluator(csr([ga, gb], 3), cutoff=1 + b % 3, n_threads=1 + (a + b) % 3, mb_size=1 + a % 2, **kw)
        res = [None, None]
        if "recommendable_items" in kw:
            res = [[0, 2], [0, 2]]
        if "per_user_recommendable_items" in kw:
            res = kw["per_user_recommendable_items"]
        mask = [[1], [0]] if "masked_interactions" in kw else [(), ()]
        egt = [set(g) if r is None else set(g) & set(r) for g, r in zip((ga, gb), res)]
        nr = {"recommendable_items": 2, "per_user_recommendable_items": 3}.get(next(iter(kw), ""), 3)
        for c in (1, 2, 3):
            want = M.aggregate([M.rank(s, c, r, m) for s, r, m in zip((sa, sb), res, mask)], egt, 3, nr, c if "recall_with_cutoff" in kw else None)
            msg = lambda: f"scores {S.tolist()}, ground truth {ga}, {gb}, cutoff {c}, {list(kw)}"
            if c == ev.cutoff:
                M.compare(ctx, ev.get_score_from_score_matrix(S), want, msg)
            else:
                M.compare(ctx, ev.get_scores_from_score_matrix(S, [c]), want, msg, M.NAMES, f"@{c}")
        ctx.outcome(want["ndcg"], want["entropy"], want["gini_index"])
        ctx.state()


# ------------------------------------------------------------------- long lists
def long_cases(tier):
    def gen():
        for n in range(1, 9 if tier == "thorough" else 7):
            for k in range(n + 1):
                for gt in subsets(n):
                    yield ["one", n, k, gt]
        for nu, ni in ((20, 30), (3, 60), (130, 7), (1, 1), (5, 2), (4, 300), (3, 1030)):
            for seed in range(6):
                for r in (None, "global", "per", "persparse", "empty"):
                    yield ["many", nu, ni, seed, r]
    return gen


def run_long(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import Evaluator
    from vf import metrics as M

    if case[0] == "one":
        _, n, k, gt = case
        # the k first positions of a fixed permutation are scoreable
        perm = [(i * 5 + 3) % n if n % 5 else (i * 3 + 1) % n for i in range(n)]
        if len(set(perm)) != n:
            perm = list(range(n))
        row = [-INF] * n
        for p in range(k):
            row[perm[p]] = 10.0 - p
        for rwc in (False, True):
            ev = Evaluator(csr([gt], n), n_threads=1, cutoff=n, recall_with_cutoff=rwc)
            got = ev.get_scores_from_score_matrix(np.asarray([row]), list(range(1, n + 1)))
            for c in range(1, n + 1):
                M.compare(ctx, got, M.aggregate([M.rank(row, c)], [set(gt)], n, n, c if rwc else None), lambda: f"{n} items, scores {row}, ground truth {gt}, cutoff {c}", M.NAMES, f"@{c}")
        ctx.outcome(got[f"ndcg@{n}"])
        return
    _, nu, ni, seed, r = case
    S = np.asarray([[((u + 1) * (i + 3) * (7 + seed) + u * seed) % (5 + ni // 2) for i in range(ni)] for u in range(nu)], dtype=float)
    S[(np.arange(nu)[:, None] * 3 + np.arange(ni)[None]) % 11 == seed] = -INF
    gts = [[i for i in range(ni) if (u * 13 + i * (5 + seed)) % 9 < u % 4] for u in range(nu)]
    mask = [[i for i in range(ni) if (u + i * 7 + seed) % 6 == 0] for u in range(nu)] if seed % 2 else None
    kw = dict(n_threads=1 + seed % 4, cutoff=min(ni, 1 + seed * 3) if ni < 200 else [ni, 63, 65, 128, 257, 300][seed], recall_with_cutoff=seed % 3 == 0)
    res, nr = [None] * nu, ni
    if r == "global":
        g = [i for i in range(ni) if i % 3 != seed % 3]
        kw["recommendable_items"] = g
        res, nr = [g] * nu, len(g)
    elif r == "empty":
        kw["recommendable_items"] = []
        res, nr = [[]] * nu, 0
    elif r:
        res = [[i for i in range(ni) if (i + u) % 4 and (i % 2 or u % 3)] for u in range(nu)]
        kw["per_user_recommendable_items"] = res if r == "per" else csr(res, ni, shuffled=seed >= 2, zeros=[(u, i) for u in range(0, nu, 2) for i in range(ni) if seed % 3 == 1 and i not in res[u]][:50])
        nr = len({i for x in res for i in x})
    if mask:
        kw["masked_interactions"] = csr(mask, ni, shuffled=seed % 4 == 1, signed=True, zeros=[(u, i) for u in range(1, nu, 2) for i in range(ni) if seed == 3 and i not in mask[u]][:50])
    gtm = csr(gts, ni, shuffled=seed >= 2)
    ev = Evaluator(gtm, **kw)
    egt = [set(g) if x is None else set(g) & set(x) for g, x in zip(gts, res)]
    got = ev.get_score_from_score_matrix(S)
    c = ev.cutoff
    want = M.aggregate([M.rank(S[u], c, res[u], mask[u] if mask else ()) for u in range(nu)], egt, ni, nr, c if ev.recall_with_cutoff else None)
    M.compare(ctx, got, want, lambda: f"{nu} users, {ni} items, pattern {seed}, restriction {r}, cutoff {c}")
    ctx.outcome(want["ndcg"], want["gini_index"])


def size_cases(tier):
    def gen():
        for n in SMALL + MEDIUM + LARGE:
            for k in (0, 1):
                yield ["users", n, k]
        for n in SMALL + MEDIUM[:7]:
            yield ["items", n]
    return gen


def run_size(ctx, case):
    """many users recommended the same few items; long rankings"""
    import numpy as np
    import scipy.sparse as sps

    from irspack.evaluation import Evaluator
    from vf import metrics as M

    if case[0] == "items":
        n = case[1]
        row = [float((i * 7919) % n) for i in range(n)]
        gt = [i for i in range(n) if i % 3 == 0 or i > n - 4]
        ev = Evaluator(csr([gt], n), n_threads=1, cutoff=n)
        cs = sorted({1, n // 2, n - 1, n} | {c for c in (100, 128, 200, 256, 257) if c <= n})
        got = ev.get_scores_from_score_matrix(np.asarray([row]), cs)
        for c in cs:
            M.compare(ctx, got, M.aggregate([M.rank(row, c)], [set(gt)], n, n), lambda: f"{n} items, cutoff {c}", M.NAMES, f"@{c}")
        ctx.outcome(case)
        return
    _, n, k = case
    u = np.arange(n)
    S = np.stack([3.0 + 0 * u, 2.0 + (u % 3 == 0) * 5, (u % 7 == 1) * 4.0 + 1.0 * (u == n - 1)], axis=1)
    G = np.stack([u % 2 == 0, u % 5 == 1, (u % 11 == 3) | (u == n - 1)], axis=1)
    ev = Evaluator(sps.csr_matrix(G.astype(float)), n_threads=[3, 8][k], cutoff=2, mb_size=[128, n][k])
    got = ev.get_score_from_score_matrix(S)
    want = M.aggregate([M.rank(r, 2) for r in S.tolist()], [set(np.flatnonzero(g).tolist()) for g in G], 3, 3)
    M.compare(ctx, got, want, lambda: f"{n} users, mb_size {ev.mb_size}")
    ctx.outcome(case)



def families(tier):
    return {"one-user": (one_cases(tier), run_one), "two-users": (two_cases(tier), run_two), "lists": (long_cases(tier), run_long), "sizes": (size_cases(tier), run_size)}
