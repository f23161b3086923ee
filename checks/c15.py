"""C15: recommendation by id, single and batch."""
import itertools

LEVEL = "model_checking"
RULE = (
    "Every score row over a 7-value alphabet (both infinities, ties, values closer than single precision) x every allowed list (order, repeats, unknown "
    "ids) x every forbidden set x cutoff x float type is ranked by the real code through the single-user and the batch entry points; scripted models "
    "drive the recommender entry points over every seen pattern and profile. The answer has to be a top-k of the eligible items."
)
ASSUMPTIONS = ["Scores are not NaN.", "Profiles given as dictionaries have non-zero ratings.", "Among items with equal scores any order and choice is right."]
BOUNDS = {"quick": "3 items x 7 score values x 19 allowed lists x 10 forbidden lists x cutoffs 0..4 x f32/f64; threads 1..3; 2 users x all seen patterns; 40 items x 33 users; 7 items: all forbidden subsets x all allowed (or unscored) subsets; batches of 127..4097 users; one mapper reused over every request order",
          "thorough": "4 items; subsets of 8 items"}
INF = float("inf")
ALPHA = [-INF, -1.0, 0.0, 0.5, 1.0, 1.0 + 1e-12, INF]
IDS = {"int": [10, 0, 5, 1], "str": ["b", "a", "c", "0"], "mixed": [1, "1", (2, 3), None], "float": [1.5, -0.5, 3.0, 0.0]}
UNK = {"int": 2, "str": "zz", "mixed": "2", "float": 7.25}


def setup():
    from vf.load import install

    install()
    import irspack.recommenders  # noqa
    import irspack.utils  # noqa


def allowed_lists(n):
    yield None
    for k in range(n + 1):
        for c in itertools.combinations(range(n), k):
            yield list(c)
    for p in itertools.permutations(range(n)):
        if p != tuple(range(n)):
            yield list(p)
    yield [0, 1, 0]
    yield [2, 2]
    yield [-1, 1]
    yield [1, -1, 0, -1]
    yield [-1]


def forbidden_lists(n):
    yield None
    for k in range(n + 1):
        for c in itertools.combinations(range(n), k):
            yield list(c)
    yield [-1, 0, 0]


def judge(ctx, got, score, ids, allowed, forbidden, seen, cutoff, msg):
    """got: what was returned; allowed etc. in terms of indexes"""
    ctx.step()
    elig = {ids[k]: float(score[k]) for k in range(len(ids))
            if score[k] > -INF and (allowed is None or k in allowed) and (forbidden is None or k not in forbidden) and k not in seen}
    want = min(cutoff, len(elig))
    if len(got) != want:
        ctx.fail(f"{msg()}: {len(got)} recommendations {got}, expected {want} out of {elig}")
    last = INF
    taken = set()
    for it, s in got:
        if it not in elig or it in taken or s != elig[it] or s > last:
            ctx.fail(f"{msg()}: got {got}, eligible items {elig}")
        last = s
        taken.add(it)
    if got and any(s > last for i, s in elig.items() if i not in taken):
        ctx.fail(f"{msg()}: got {got}, a better eligible item was left out of {elig}")


def conv(lst, t):
    return None if lst is None else [UNK[t] if k < 0 else IDS[t][k] for k in lst]


# -------------------------------------------------------------------- scores
def score_cases(tier):
    def gen():
        n = 4 if tier == "thorough" else 3
        for row in itertools.product(range(len(ALPHA)), repeat=n):
            yield [list(row)]
    return gen


def run_score(ctx, case):
    import numpy as np

    from irspack.utils import ItemIDMapper

    (row,) = case
    n = len(row)
    base = [ALPHA[k] for k in row]
    AL, FL = list(allowed_lists(n)), list(forbidden_lists(n))
    t = ["int", "str", "mixed", "float"][sum(row) % 4]
    ids = IDS[t][:n]
    m = ItemIDMapper(list(ids))
    for dt in (np.float64, np.float32):
        score = np.asarray(base, dtype=dt)
        keep = score.copy()
        for ai, fi in itertools.product(range(len(AL)), range(len(FL))):
            A, F = conv(AL[ai], t), conv(FL[fi], t)
            A0, F0 = A and list(A), F and list(F)
            for c in (range(n + 2) if dt is np.float64 else ((ai + fi) % (n + 2),)):
                got = m.score_to_recommended_items(score, c, allowed_item_ids=A, forbidden_item_ids=F)
                judge(ctx, got, score, ids, AL[ai], FL[fi], (), c, lambda: f"scores {score} ({score.dtype}) of {ids}, allowed {A}, forbidden {F}, cutoff {c}")
            ctx.check(A == (A0 if A is not None and A0 else A) and F == (F0 if F0 else F), "lists modified")
        ctx.check(np.array_equal(score, keep), lambda: f"scores {keep} were modified")
    ctx.outcome(row)


# --------------------------------------------------------------------- batch
def batch_cases(tier):
    def gen():
        n = 3
        AL, FL = list(allowed_lists(n)), list(forbidden_lists(n))
        for dt in ("f64", "f32"):
            for lay in ("C", "F", "sliced", "neg"):
                for c in range(5):
                    for a in range(len(AL)):
                        yield ["all", dt, lay, c, a, None, 1 + (a + c) % 3]
                    for f in range(0, 10):
                        yield ["all", dt, lay, c, None, f, 1 + f % 3]
                    yield ["all", dt, lay, c, 3, 2, 2]
        for nu in (0, 1, 2):
            rows = range(0, 343, 5 if nu == 2 else 1)
            for r in rows:
                for a in (range(-1, len(AL)) if nu < 2 else (-1, 1, 4, 13)):
                    for th in (1, 2, 3):
                        yield ["few", nu, r, a, th]
                if nu == 0:
                    break
        for nu, ni in ((33, 40), (1, 40), (7, 17), (64, 5)):
            for c in sorted({0, 1, 2, 15, 16, 17, ni - 1, ni, ni + 1, 100}):
                for th in (1, 2, 4, 8):
                    yield ["big", nu, ni, c, th]
        for nu, ni in ((5, 200), (3, 300), (2, 1030)):
            for c in (20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025):
                if c <= ni + 60:
                    for th in (1, 3):
                        yield ["big", nu, ni, c, th]
        for nu in (127, 129, 255, 257, 999, 1001, 1025) + ((4097, 65537) if tier == "thorough" else (4097,)):
            for th in (1, 3):
                yield ["big", nu, 5, 3, th]
        yield ["reject"]
    return gen


def lay_out(S, lay):
    import numpy as np

    if lay == "F":
        return np.asfortranarray(S)
    if lay == "sliced":
        B = np.full((S.shape[0] * 2, S.shape[1] * 2 + 1), 99.0, dtype=S.dtype)
        B[::2, 1::2] = S
        return B[::2, 1::2]
    if lay == "neg":
        return S[::-1].copy()[::-1]
    return S


def run_batch(ctx, case):
    import numpy as np

    from irspack.utils import ItemIDMapper

    kind = case[0]
    if kind == "all":
        _, dt, lay, c, a, f, th = case
        rows = list(itertools.product(range(len(ALPHA)), repeat=3))
        S = lay_out(np.asarray([[ALPHA[k] for k in r] for r in rows], dtype=np.float64 if dt == "f64" else np.float32), lay)
        t = "str"
        AL, FL = list(allowed_lists(3)), list(forbidden_lists(3))[1:]
        n = len(rows)
        if a is not None and f is None:
            modes = [("shared", [AL[a]] * n, None)]
            if AL[a] is not None:
                modes.append(("per", [AL[1 + (a + u) % (len(AL) - 1)] for u in range(n)], None))
        elif a is None:
            modes = [("none", [None] * n, [FL[(f + u) % len(FL)] for u in range(n)])]
        else:
            modes = [("shared", [AL[a]] * n, [FL[u % len(FL)] for u in range(n)]), ("per", [AL[1 + u // 9 % (len(AL) - 1)] for u in range(n)], [FL[u % len(FL)] for u in range(n)])]
    elif kind == "few":
        _, nu, r, a, th = case
        c = (r + a) % 5
        t = "int"
        AL = list(allowed_lists(3))
        rows = [[(r + 200 * u) // 7**k % 7 for k in range(3)] for u in range(nu)]
        S = np.asarray([[ALPHA[k] for k in x] for x in rows], dtype=np.float64).reshape(nu, 3)
        one = AL[a] if a >= 0 else None
        modes = [("shared", [one] * nu, None)]
        if one is not None:
            modes.append(("per", [AL[(a + u) % (len(AL) - 1) + 1] for u in range(nu)], None))
            modes.append(("both", [AL[(a + u) % (len(AL) - 1) + 1] for u in range(nu)], [[u % 3] for u in range(nu)]))
    elif kind == "big":
        _, nu, ni, c, th = case
        mod = 101 if ni < 101 else 1031
        ids = [f"i{(k * 7) % mod}" for k in range(ni)]
        m = ItemIDMapper(ids)
        S = np.asarray([[((u * 31 + k * 17) % (41 if ni < 101 else 619)) // (1 + u % 3) for k in range(ni)] for u in range(nu)],
                       dtype=np.float64 if (c + th) % 2 else np.float32)
        S[:, ::9] = -INF
        al = [[k for k in range(ni) if (k + u) % 3] for u in range(nu)]
        fo = [[k for k in range(ni - 1, -1, -1) if (k * 5 + u) % 7 < 5] for u in range(nu)]
        name = lambda x: [ids[k] for k in x]
        for A, F in ((None, None), (al, None), (None, fo), (al, fo)):
            got = m.score_to_recommended_items_batch(S, c, per_user_allowed_item_ids=A and [name(x) for x in A], forbidden_item_ids=F and [name(x) for x in F], n_threads=th)
            ctx.eq(len(got), nu, "number of users")
            for u in range(nu):
                judge(ctx, got[u], S[u], ids, A and A[u], F and F[u], (), c, lambda: f"user {u} of {nu}, {ni} items, cutoff {c}, {th} threads, lists {A is not None, F is not None}")
                if th == 1 and u < 3:
                    one = m.score_to_recommended_items(S[u], c, allowed_item_ids=A and name(A[u]), forbidden_item_ids=F and name(F[u]))
                    judge(ctx, one, S[u], ids, A and A[u], F and F[u], (), c, lambda: f"one user, {ni} items, cutoff {c}, lists {A is not None, F is not None}")
        return
    else:
        m = ItemIDMapper(["a", "b", "c"])
        S = np.zeros((2, 3))
        bad = (ValueError, AssertionError, RuntimeError)
        ctx.raises(bad, lambda: ItemIDMapper(["a", "b", "a"]), "duplicate ids")
        ctx.raises(bad, lambda: m.score_to_recommended_items(np.zeros(4), 2), "wrong number of scores")
        ctx.raises(bad, lambda: m.score_to_recommended_items_batch(np.zeros((2, 4)), 2), "wrong number of scores")
        ctx.raises(bad, lambda: m.score_to_recommended_items_batch(np.zeros((2, 2)), 2), "wrong number of scores")
        for bads in ([["a"]] * 3, [["a"]]):
            ctx.raises(bad, lambda: m.score_to_recommended_items_batch(S, 2, per_user_allowed_item_ids=bads), "wrong number of allowed lists")
            ctx.raises(bad, lambda: m.score_to_recommended_items_batch(S, 2, forbidden_item_ids=bads), "wrong number of forbidden lists")
        ctx.raises(bad, lambda: m.score_to_recommended_items_batch(S, 2, n_threads=0), "zero threads")
        ctx.raises((ValueError, TypeError), lambda: m.score_to_recommended_items_batch(S.astype(int), 2), "integer scores")
        return
    ids = IDS[t][:3]
    m = ItemIDMapper(list(ids))
    keep = S.copy()
    for mode, A, F in modes:
        kw = dict(n_threads=th)
        if mode == "shared" and A and A[0] is not None:
            kw["allowed_item_ids"] = conv(A[0], t)
        elif mode in ("per", "both"):
            kw["per_user_allowed_item_ids"] = [conv(x, t) for x in A]
            if mode == "both":
                kw["allowed_item_ids"] = []  # documented to be ignored then
        if F is not None:
            kw["forbidden_item_ids"] = [conv(x, t) for x in F]
        got = m.score_to_recommended_items_batch(S, c, **kw)
        ctx.eq(len(got), len(S), "number of users")
        for u in range(len(S)):
            judge(ctx, got[u], keep[u], ids, A[u], F and F[u], (), c,
                  lambda: f"batch of {len(S)} ({mode}, {S.dtype}, {case}), user {u} scores {keep[u]}, allowed {A[u]}, forbidden {F and F[u]}, cutoff {c}")
        ctx.check(np.array_equal(S, keep), lambda: f"batch {mode}: the given score array was modified")
    ctx.outcome(case)


# ------------------------------------------------------------------- subsets
def subset_cases(tier):
    def gen():
        n = 7 if tier == "quick" else 8
        for arr in range(3):
            for what in ("allowed", "unscored"):
                for f in range(2 ** n):
                    yield [n, arr, what, f]
    return gen


def run_subset(ctx, case):
    """every forbidden subset x every allowed subset / every subset scored -inf x every cutoff"""
    import numpy as np

    from irspack.utils import ItemIDMapper

    n, arr, what, f = case
    ids = [f"x{(k * 5) % 11}" for k in range(n)]
    m = ItemIDMapper(ids)
    base = np.asarray([[float(k) for k in range(n)], [float((k * 3) % n) for k in range(n)], [float(k // 2) for k in range(n)]][arr])
    F = [k for k in range(n) if f >> k & 1]
    Fi = [ids[k] for k in F]
    subs = [[k for k in range(n) if a >> k & 1] for a in range(2 ** n)]
    for ai, sub in enumerate(subs):
        sc = base
        A = sub
        if what == "unscored":
            sc = base.copy()
            sc[sub] = -INF
            A = None
        for c in ((ai + f) % (n + 1), (ai // 8 + f // 4) % 4 + 1):
            got = m.score_to_recommended_items(sc, c, allowed_item_ids=None if A is None else [ids[k] for k in A], forbidden_item_ids=Fi)
            judge(ctx, got, sc, ids, A, F, (), c, lambda: f"scores {sc.tolist()}, allowed {A}, forbidden {F}, cutoff {c}")
    S = np.tile(base, (len(subs), 1))
    if what == "unscored":
        for u, sub in enumerate(subs):
            S[u, sub] = -INF
    for c in (f % (n + 1), 1 + f % 3):
        kw = {} if what == "unscored" else dict(per_user_allowed_item_ids=[[ids[k] for k in s] for s in subs])
        got = m.score_to_recommended_items_batch(S, c, forbidden_item_ids=[Fi] * len(subs), n_threads=1 + f % 3, **kw)
        ctx.eq(len(got), len(subs), "number of users")
        for u, sub in enumerate(subs):
            judge(ctx, got[u], S[u], ids, None if what == "unscored" else sub, F, (), c, lambda: f"batch: scores {S[u].tolist()}, allowed {sub}, forbidden {F}, cutoff {c}")
    ctx.outcome(case)


# --------------------------------------------------------------------- models
def model_cases(tier):
    def gen():
        for x in range(64):
            for c in range(5):
                for t in ("int", "str"):
                    yield ["known", x, c, t]
        profs = [p for k in range(4) for p in itertools.permutations([0, 1, 2, -1], k)]
        for i, p in enumerate(profs):
            for kind in ("list", "dict"):
                for c in (0, 1, 2, 4):
                    yield ["cold", i, kind, c]
        yield ["mreject"]
    return gen


def make_rec(X, cold_log):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders.base import BaseRecommender

    class R(BaseRecommender, register_class=False):
        T = np.asarray([[0.5, 0.5, 2.0], [1.0 + 1e-12, 1.0, -3.0]])

        def _learn(self):
            pass

        def get_score(self, ui):
            return self.T[np.asarray(ui)].copy()

        def get_score_cold_user(self, Xc):
            D = sps.csr_matrix(Xc).toarray()
            cold_log.append(D)
            return np.asarray([[0.25, 1.5, 1.5]]) + D @ np.asarray([[1.0, 2.0, 0.0], [0.0, 1.0, 1.0], [3.0, 0.0, 1.0]])

    return R(X).learn()


def run_model(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import IDMapper, ItemIDMapper

    bad = (ValueError, AssertionError, RuntimeError, KeyError)
    log = []
    if case[0] == "mreject":
        rec = make_rec(sps.csr_matrix(np.eye(2, 3)), log)
        ids, us = ["a", "b", "c"], [5, 0]
        m = IDMapper(us, ids)
        ctx.raises(bad, lambda: IDMapper([1, 1], ids), "duplicate users")
        ctx.raises(bad, lambda: IDMapper(us, ["a", "a", "c"]), "duplicate items")
        for u in (1, "x", 2.5):
            ctx.raises(bad, lambda: m.recommend_for_known_user_id(rec, u), f"unknown user {u}")
            ctx.raises(bad, lambda: m.recommend_for_known_user_batch(rec, [5, u]), f"unknown user {u}")
        ctx.raises(bad, lambda: IDMapper([1, 2, 3], ids).recommend_for_known_user_id(rec, 1), "n_users mismatch")
        ctx.raises(bad, lambda: IDMapper([1], ids).recommend_for_known_user_batch(rec, [1]), "n_users mismatch")
        for wrong in (["a", "b"], ["a", "b", "c", "d"]):
            ctx.raises(bad, lambda: IDMapper(us, wrong).recommend_for_known_user_id(rec, 5), "n_items mismatch")
            ctx.raises(bad, lambda: IDMapper(us, wrong).recommend_for_known_user_batch(rec, [5]), "n_items mismatch")
            ctx.raises(bad, lambda: ItemIDMapper(wrong).recommend_for_new_user(rec, ["a"]), "n_items mismatch")
            ctx.raises(bad, lambda: ItemIDMapper(wrong).recommend_for_new_user_batch(rec, [["a"]]), "n_items mismatch")
        return
    AL, FL = list(allowed_lists(3)), list(forbidden_lists(3))
    if case[0] == "known":
        _, x, c, t = case
        X = np.asarray([[x >> (u * 3 + i) & 1 for i in range(3)] for u in range(2)], dtype=float)
        rec = make_rec(sps.csr_matrix(X), log)
        T0 = rec.T.copy()
        ids, us = IDS[t][:3], {"int": [1, 0], "str": ["u2", "u1"]}[t]
        m = IDMapper(list(us), list(ids))
        seen = [{i for i in range(3) if X[u, i]} for u in range(2)]
        for a in range(0, len(AL), 3):
            for f in range(0, len(FL), 3):
                A, F = AL[a], FL[f]
                for u in range(2):
                    got = m.recommend_for_known_user_id(rec, us[u], c, conv(A, t), conv(F, t))
                    judge(ctx, got, T0[u], ids, A, F, seen[u], c, lambda: f"known user {us[u]}, seen {X.tolist()}, allowed {A}, forbidden {F}, cutoff {c}")
                for order in ([0, 1], [1, 0], [1], [0, 0, 1]):
                    kw = {}
                    if A is not None:
                        kw["allowed_item_ids"] = conv(A, t)
                    if F is not None:
                        kw["forbidden_item_ids"] = [conv(F, t) for _ in order]
                    got = m.recommend_for_known_user_batch(rec, [us[u] for u in order], c, n_threads=1 + (a + f) % 3, **kw)
                    ctx.eq(len(got), len(order), "number of users")
                    for g, u in zip(got, order):
                        judge(ctx, g, T0[u], ids, A, F, seen[u], c, lambda: f"known user {us[u]} in batch {order}, seen {X.tolist()}, allowed {A}, forbidden {F}, cutoff {c}")
        per = m.recommend_for_known_user_batch(rec, [us[1], us[0]], c, allowed_item_ids=[], per_user_allowed_item_ids=[conv([0, 1], t), conv([2, -1], t)])
        for g, u, A in zip(per, (1, 0), ([0, 1], [2])):
            judge(ctx, g, T0[u], ids, A, None, seen[u], c, lambda: f"known user {us[u]} in batch, per-user allowed {A}, seen {X.tolist()}")
        ctx.check(np.array_equal(rec.T, T0) and np.array_equal(rec.X_train_all.toarray(), X), "the model was modified")
        ctx.eq((m.user_ids, m.item_ids), (us, ids), "id lists of the mapper")
        ctx.outcome(x, c)
        return
    _, i, kind, c = case
    profs = [p for k in range(4) for p in itertools.permutations([0, 1, 2, -1], k)]
    t = "str"
    ids = IDS[t][:3]
    m = ItemIDMapper(list(ids))
    rec = make_rec(sps.csr_matrix(np.eye(2, 3)), log)

    def profile(p, kind):
        if kind == "list":
            return conv(p, t)
        return {(UNK[t] if k < 0 else IDS[t][k]): [0.5, -1.0, 2.5, 7.0][k] for k in p}

    def row(p, kind):
        r = np.zeros(3)
        for k in p:
            if k >= 0:
                r[k] = 1.0 if kind == "list" else [0.5, -1.0, 2.5][k]
        return r

    def expect(r):
        return np.asarray([0.25, 1.5, 1.5]) + r @ np.asarray([[1.0, 2.0, 0.0], [0.0, 1.0, 1.0], [3.0, 0.0, 1.0]])

    p = profs[i]
    r = row(p, kind)
    for a in range(0, len(AL), 2):
        for f in range(0, len(FL), 3):
            A, F = AL[a], FL[f]
            P = profile(p, kind)
            P0 = type(P)(P)
            del log[:]
            got = m.recommend_for_new_user(rec, P, c, conv(A, t), conv(F, t))
            ctx.check(len(log) == 1 and np.array_equal(log[0], r[None]), lambda: f"profile {P} was scored as {log}")
            judge(ctx, got, expect(r), ids, A, F, {k for k in p if k >= 0}, c, lambda: f"new user {P}, allowed {A}, forbidden {F}, cutoff {c}")
            ctx.eq(P, P0, "profile")
    for j in range(0, len(profs), 4):
        others = [(p, kind), (profs[j], "dict" if j % 2 else "list"), ((), "list")]
        Ps = [profile(*o) for o in others]
        rows = np.asarray([row(*o) for o in others])
        M = m.list_of_user_profile_to_matrix(Ps)
        ctx.check(M.shape == (3, 3) and np.array_equal(M.toarray(), rows), lambda: f"profiles {Ps} became {M.toarray().tolist()}")
        if j % 16 == 0 and kind == "list" and p:  # items repeated in a profile: they are in it, and nothing else is
            M = m.list_of_user_profile_to_matrix([Ps[0] + Ps[0][:1], Ps[1], Ps[0]]).toarray()
            ctx.check(np.array_equal(M[0] > 0, rows[0] > 0) and np.array_equal(M[1], rows[1]) and np.array_equal(M[2], rows[0]),
                      lambda: f"profiles {[Ps[0] + Ps[0][:1], Ps[1], Ps[0]]} became {M.tolist()}")
        AA, FF = [[0, 1, 1], [1, -1, 2], [0, 1, 2]], [[0], [], [-1, 2]]
        for per, F in itertools.product((None, AA), (None, FF)):
            del log[:]
            got = m.recommend_for_new_user_batch(
                rec, Ps, c, per_user_allowed_item_ids=per and [conv(x, t) for x in per], forbidden_item_ids=F and [conv(x, t) for x in F], n_threads=1 + j % 3)
            ctx.eq(len(got), 3, "number of users")
            for u, (pp, kk) in enumerate(others):
                judge(ctx, got[u], expect(rows[u]), ids, per and per[u], F and F[u], {k for k in pp if k >= 0}, c,
                      lambda: f"new users {Ps}, user {u}, allowed {per}, forbidden {F}, cutoff {c}")
    ctx.outcome(p, kind)


# ------------------------------------------------- one mapper, many recommenders and calls
def reuse_cases(tier):
    def gen():
        ops = ("one A", "one B", "batch A", "batch B", "new A", "newbatch B", "score", "train", "other")
        for s in itertools.product(ops, repeat=4 if tier == "thorough" else 3):
            yield [s]
    return gen


def run_reuse(ctx, case):
    """Every call speaks about the recommender, lists and scores it is given, whatever was asked before."""
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import IDMapper

    ids, us = ["a", "b", "c"], [5, 0]
    m = IDMapper(us, ids)
    log = []
    A = make_rec(sps.csr_matrix(np.asarray([[1.0, 0, 0], [0, 0, 1]])), log)
    B = make_rec(sps.csr_matrix(np.asarray([[0, 0, 1.0], [0, 1, 0]])), log)
    B.T = np.asarray([[3.0, 1.0, 9.0], [0.0, 5.0, 2.0]])
    R = {"A": A, "B": B}
    S = np.asarray([[0.0, 2.0, 1.0], [4.0, 3.0, 5.0]])
    allowed = ["c", "b"]  # the caller's own lists, changed between calls
    prof = ["a"]
    base, W = np.asarray([0.25, 1.5, 1.5]), np.asarray([[1.0, 2.0, 0.0], [0.0, 1.0, 1.0], [3.0, 0.0, 1.0]])
    for k, op in enumerate(list(case[0]) + ["one A", "batch A"]):
        what, _, r = op.partition(" ")
        rec = R.get(r)
        al = [ids.index(x) for x in allowed] if k % 2 else None
        kw = dict(allowed_item_ids=allowed) if k % 2 else {}
        msg = lambda: f"calls {case[0]}, call {k} ({op}), allowed {allowed if k % 2 else None}"
        if what == "one":
            u = k % 2
            judge(ctx, m.recommend_for_known_user_id(rec, us[u], 2, **kw), rec.T[u], ids, al, None, set(rec.X_train_all[u].indices), 2, msg)
        elif what == "batch":
            got = m.recommend_for_known_user_batch(rec, us[::-1], 2, n_threads=2, **kw)
            for j, u in enumerate((1, 0)):
                judge(ctx, got[j], rec.T[u], ids, al, None, set(rec.X_train_all[u].indices), 2, msg)
        elif what in ("new", "newbatch"):
            d = np.asarray([1.0 if x in prof else 0.0 for x in ids])
            sc = base + d @ W
            got = m.recommend_for_new_user(rec, prof, 3, **kw) if what == "new" else m.recommend_for_new_user_batch(rec, [prof], 3, n_threads=1, **kw)[0]
            judge(ctx, got, sc, ids, al, None, {i for i in range(3) if d[i]}, 3, msg)
            prof[0] = ids[(ids.index(prof[0]) + 1) % 3]
        elif what == "score":
            judge(ctx, m.score_to_recommended_items(S[0], 2, **kw), S[0], ids, al, None, (), 2, msg)
            S[:] = np.roll(S, 1, axis=1)
            for u, got in enumerate(m.score_to_recommended_items_batch(S, 2, n_threads=2, **kw)):
                judge(ctx, got, S[u], ids, al, None, (), 2, msg)
        elif what == "train":
            A.T = np.roll(A.T, 1, axis=1) * 2
        else:
            R["A"] = A = make_rec(sps.csr_matrix(np.asarray([[0, 1.0, 0], [1, 0, 0]])), log)
        if k == 1:
            allowed.append("a")
            allowed.remove("c")
    ctx.outcome(case)


def families(tier):
    return {"reuse": (reuse_cases(tier), run_reuse), "scores": (score_cases(tier), run_score), "batch": (batch_cases(tier), run_batch), "subsets": (subset_cases(tier), run_subset), "models": (model_cases(tier), run_model)}
