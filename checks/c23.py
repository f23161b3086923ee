"""C23: implicit ALS solves the least-squares problems it states."""
from checks.c21 import mat
from vf import progress
from vf import alsref as R

LEVEL = "model_checking"
RULE = (
    "The trainer is driven through every small interaction matrix, with enumerated dimension, unobserved weight, regularization exponent, loss variant, solver and "
    "thread count, from generic factor states, for sequences of three epochs. After every step each user and item vector is checked, in double precision, against the "
    "normal equations of its row given the other side (direct solver, full conjugate gradient, full subspace); partial solvers may never increase a row's "
    "objective nor the total, and must reach the minimizer when iterated. Fold-in is checked the same way, the reported loss against the stated formula, and whole "
    "training runs of the recommender against a double-precision replay. Row lengths and row counts around the internal batch sizes are enumerated separately."
)
ASSUMPTIONS = [
    "Non-negative finite interactions, positive regularization.",
    "Single-precision arithmetic: minimizers are compared by the excess of the row objective and the residual, relative to the data's scale.",
]
BOUNDS = {
    "quick": "settings: K 1..3 x 3 alpha0 x 3 nu x 2 losses x 8 solvers = 432; all 3^4 2x2 matrices x every 2nd setting, all 2^6 2x3/3x2 x every 8th, all 3^6 2x3 x every 60th (rotating with the matrix), 3 epochs + fold-ins; row "
             "lengths 0,1,62..66,127..130 and row counts 1,15..17,31..33 and factor dimensions 8..100 x 4 solvers x threads 1..4; 3^4 x 24 recommender settings replayed for 2 epochs; score blocks of up to 4 users and 200 rows; models scored, trained further and refitted",
    "thorough": "all 432 settings on the 3^4 and 2^6 matrices, every 4th on 3^6 2x3/3x2 and 2^9 3x3",
}

ALPHA = [0.0, 0.1, 1.0]
NU = [0.0, 0.5, 1.0]
LOSS = ["IALSPP", "ORIGINAL"]
# name -> (kind, arguments, exact)
SOLVERS = [
    ("CHOLESKY", {}, True),
    ("CG", dict(cg=0), True),
    ("CG", dict(cg=1), False),
    ("CG", dict(cg=2), False),
    ("CG", dict(cg=8), True),
    ("IALSPP", dict(dim=64), True),
    ("IALSPP", dict(dim=2), False),
    ("IALSPP", dict(dim=1), False),
]


def setup():
    from vf.load import install

    install()
    import irspack.recommenders  # noqa


def check_rows(ctx, X, V, old, new, cfg, exact, msg, prior=None, tol=1e-4):
    """the vectors `new` of the rows of X, given the other side V"""
    import numpy as np

    V = V.astype(np.float64)
    ctx.eq(new.shape, (X.shape[0], V.shape[1]), f"{msg}: shape")
    ctx.check(np.isfinite(new).all(), lambda: f"{msg}: non-finite factors {new.tolist()}")
    for i in range(X.shape[0]):
        p = None if prior is None else prior[i]
        u = new[i].astype(np.float64)
        if not X[i].any() and p is None:
            if exact or old is None:
                ctx.check(np.abs(u).max() <= 1e-6, lambda: f"{msg}: row {i} has no interactions but vector {u.tolist()}")
                continue
        A, b = R.system(X[i], V, cfg, p)
        big = max(1e-3, np.abs(u).max(), 0 if old is None else np.abs(old[i]).max())
        scale = np.abs(A).sum(axis=1).max() * big + np.abs(b).max() + 1e-6
        if exact:
            res = np.abs(A @ u - b).max()
            ctx.check(res <= tol * scale, lambda: f"{msg}: row {i} {X[i].tolist()} is not the minimizer: {u.tolist()}, expected {R.minimizer(X[i], V, cfg, p).tolist()}, residual {res}")
        if old is not None:
            o = old[i].astype(np.float64)
            f0, f1 = 0.5 * o @ A @ o - b @ o, 0.5 * u @ A @ u - b @ u
            lim = 1e-5 * (1e-3 + abs(f0) + np.abs(A).max() * (o @ o + u @ u) + np.abs(b).max() * (np.abs(o).max() + np.abs(u).max()))
            ctx.check(f1 <= f0 + lim, lambda: f"{msg}: objective of row {i} {X[i].tolist()} increased from {f0} to {f1}")


def matrices(tier):
    t = tier == "thorough"

    def gen():
        for c in range(3 ** 4):
            yield ["m", [2, 2], 3, c, 1 if t else 2]
        for c in range(2 ** 6):
            yield ["m", [2, 3], 2, c, 1 if t else 8]
            yield ["m", [3, 2], 2, c, 1 if t else 8]
        for c in range(3 ** 6):
            yield ["m", [2, 3], 3, c, 4 if t else 60]
            if t:
                yield ["m", [3, 2], 3, c, 4]
        if t:
            for c in range(2 ** 9):
                yield ["m", [3, 3], 2, c, 4]
    return gen


def settings():
    import itertools

    return list(itertools.product((1, 2, 3), ALPHA, NU, LOSS, range(len(SOLVERS))))


def run_m(ctx, case):
    _, shape, base, c, mode = case
    D = mat(c, shape, base) * (1.0, 0.25, 0.5)[(c + c // 3 + c // 27) % 3]
    allset = settings()
    # mode > 1: every setting meets many matrices, every matrix many settings
    allset = [s for i, s in enumerate(allset) if (i * 7 + c) % mode == 0]
    for i, s in enumerate(allset):
        one(ctx, D, *s, threads=1 + (c + i) % 2, salt=(c + i) % 7)
    ctx.step(len(allset) * 5)


def one(ctx, D, K, alpha0, nu, loss, si, threads, salt, epochs=3):
    import numpy as np

    kind, kw, exact = SOLVERS[si]
    if kind == "IALSPP" and kw["dim"] == 2 and K <= 2:
        exact = True
    if kind == "IALSPP" and kw["dim"] == 1 and K == 1:
        exact = True
    if kind == "CG" and 0 < kw["cg"] and kw["cg"] >= K:
        exact = True
    cfg = dict(alpha0=alpha0, reg=0.3, nu=nu, loss=loss)
    msg = f"{kind} {kw} K={K} {cfg} threads={threads} X={D.tolist()}"
    X = D.astype(np.float64)
    t = R.core(D, K, cfg)
    t.user = R.factors(D.shape[0], K, salt)
    t.item = R.factors(D.shape[1], K, salt + 11)
    sol = R.solver(kind, threads=threads, **kw)
    ctx.check(np.array_equal(t.user, R.factors(D.shape[0], K, salt)), f"{msg}: user factors changed on assignment")
    prev = R.loss(X, t.user.astype(float), t.item.astype(float), cfg)
    for e in range(epochs):
        u0, v0 = t.user.copy(), t.item.copy()
        got = t.compute_loss(sol) if e < 2 else None
        scale = abs(prev) + (u0.astype(float) ** 2).sum() + (v0.astype(float) ** 2).sum() + 1
        ctx.check(got is None or abs(got - prev) <= 1e-4 * scale, lambda: f"{msg} epoch {e}: reported loss {got}, objective {prev}")
        t.step(sol)
        u1, v1 = t.user.copy(), t.item.copy()
        check_rows(ctx, X, v0, u0, u1, cfg, exact, f"{msg} epoch {e} users")
        check_rows(ctx, X.T, u1, v0, v1, cfg, exact, f"{msg} epoch {e} items")
        cur = R.loss(X, u1.astype(float), v1.astype(float), cfg)
        ctx.check(cur <= prev + 1e-4 * scale, lambda: f"{msg} epoch {e}: objective increased from {prev} to {cur}")
        prev = cur
    # fold-in of the same rows, with enough iterations for a minimizer
    import scipy.sparse as sps

    Xs = sps.csr_matrix(D.astype(np.float32))
    sol = R.solver(kind, threads=threads, cg=0 if kind == "CG" else 0, dim=kw.get("dim", 64), it=60)
    U = t.transform_user(Xs, sol)
    check_rows(ctx, X, t.item.astype(float), None, U, cfg, True, f"{msg} fold-in of users", tol=1e-3)
    V = t.transform_item(Xs, sol)
    check_rows(ctx, X.T, t.user.astype(float), None, V, cfg, True, f"{msg} fold-in of items", tol=1e-3)
    ctx.check(np.array_equal(t.user, u1) and np.array_equal(t.item, v1), f"{msg}: fold-in changed the model")
    if exact:
        ctx.outcome(tuple(np.round(u1, 3).ravel()))


def lengths(tier):
    def gen():
        for si in range(len(SOLVERS)):
            for n in (0, 1, 62, 63, 64, 65, 66, 127, 128, 129, 130):
                yield ["nnz", n, si]
            for rows in (1, 15, 16, 17, 31, 32, 33):
                yield ["rows", rows, si]
            for rows in (257, 1025):
                yield ["long", rows, si]
            for k in (8, 9, 12, 16, 17, 33, 64, 65, 100):
                yield ["dim", k, si]
    return gen


def run_len(ctx, case):
    import numpy as np

    what, n, si = case
    kind, kw, exact = SOLVERS[si]
    K = n if what == "dim" else 3
    for loss in LOSS:
        for alpha0 in ALPHA[:1] if what in ("long", "dim") else ALPHA:
            cfg = dict(alpha0=alpha0, reg=0.3, nu=1.0, loss=loss)
            if what == "nnz":
                D = np.zeros((3, 131))
                D[0, :n] = 1 + np.arange(n) % 3
                D[1, 131 - n:] = 2
                D[2, ::2] = 1
            elif what == "dim":
                D = np.array([[(i * 7 + j * 3 + i * j) % 5 % 3 for j in range(23)] for i in range(19)], dtype=float) * 0.25
            else:
                D = np.array([[(i * 7 + j * 3) % 4 % 3 for j in range(5)] for i in range(n)], dtype=float) * (0.25 if what == "long" else 1.0)
            ref = None
            for th in (1, 3) if what in ("long", "dim") else (1, 2, 3, 4):
                msg = f"{case} {kind} {kw} {cfg} threads={th}"
                t = R.core(D, K, cfg)
                t.user = R.factors(D.shape[0], K, 1)
                t.item = R.factors(D.shape[1], K, 2)
                u0, v0 = t.user.copy(), t.item.copy()
                sol = R.solver(kind, threads=th, **kw)
                L = R.loss(D, u0.astype(float), v0.astype(float), cfg)
                ctx.check(abs(t.compute_loss(sol) - L) <= 1e-4 * (1 + abs(L)), lambda: f"{msg}: loss {t.compute_loss(sol)} expected {L}")
                t.step(sol)
                ex = exact or kw.get("cg", 0) >= K
                if 0 < kw.get("cg", 0) < K or kw.get("dim", K) < K:
                    ex = False  # fewer steps (or smaller blocks) than unknowns need not reach the minimum
                check_rows(ctx, D, v0, u0, t.user, cfg, ex, msg + " users", tol=3e-4)
                check_rows(ctx, D.T, t.user, v0, t.item, cfg, ex, msg + " items", tol=3e-4)
                if ref is None:
                    ref = t.user.copy(), t.item.copy()
                ctx.check(np.allclose(ref[0], t.user, atol=1e-3) and np.allclose(ref[1], t.item, atol=1e-3), f"{msg}: depends on threads")
                ctx.step()


def recs(tier):
    def gen():
        for c in range(3 ** 4):
            yield ["r", [2, 2], 3, c]
        for c in range(2 ** 6):
            yield ["r", [3, 2], 2, c]
    return gen


def run_rec(ctx, case):
    """whole runs of the recommender: replayed in double precision"""
    import itertools

    import numpy as np
    import scipy.sparse as sps
    from irspack.recommenders import IALSRecommender

    _, shape, base, c = case
    D = mat(c, shape, base)
    D = D * 1.5
    for scal, eps in (("none", 1.0), ("log", 1.0), ("log", 0.25)):
        C = D if scal == "none" else np.log(1 + D / eps)
        for alpha0, nu, nus, loss in itertools.product((0.1, 1.0), (0.0, 1.0), (None, 0.5), LOSS):
            kw = dict(n_components=2, alpha0=alpha0, reg=0.2, nu=nu, confidence_scaling=scal, epsilon=eps, init_std=0.7, solver_type="CHOLESKY",
                      loss_type=loss, nu_star=nus, random_seed=c, n_threads=1, train_epochs=2, prediction_time_max_cg_steps=0)
            msg = f"{kw} X={D.tolist()}"
            rec = IALSRecommender(sps.csr_matrix(D), **kw)
            reg = 0.2
            if nus is not None:
                def sc(n):
                    nr, nc = (D != 0).sum(axis=1), (D != 0).sum(axis=0)
                    return ((nr + alpha0 * D.shape[1]) ** n).sum() + ((nc + alpha0 * D.shape[0]) ** n).sum()
                reg = 0.2 * sc(nus) / sc(nu)
            cfg = dict(alpha0=alpha0, reg=reg, nu=nu, loss=loss)
            rec0 = IALSRecommender(sps.csr_matrix(D), **kw)
            rec0.start_learning()
            U, V = rec0.get_user_embedding().astype(float), rec0.get_item_embedding().astype(float)
            for _ in range(2):
                U = R.solve_side(C, V, cfg)
                V = R.solve_side(C.T, U, cfg)
            rec.learn()
            u, v = rec.get_user_embedding(), rec.get_item_embedding()
            ctx.check(np.allclose(u, U, atol=2e-3) and np.allclose(v, V, atol=2e-3), lambda: f"{msg}: trained factors {u.tolist()} {v.tolist()}, expected {U.tolist()} {V.tolist()}")
            rec2 = IALSRecommender(sps.csc_matrix(D), **kw).learn()
            ctx.check(np.array_equal(rec2.get_user_embedding(), u) and np.array_equal(rec2.get_item_embedding(), v), f"{msg}: two runs with the same seed differ")
            # fold-in, explicitly stored zeros included
            full = sps.csr_matrix((D.ravel(), (np.repeat(np.arange(D.shape[0]), D.shape[1]), np.tile(np.arange(D.shape[1]), D.shape[0]))), shape=D.shape)
            for name, H in (("csr", sps.csr_matrix(D)), ("csc", sps.csc_matrix(D)), ("zeros", full)):
                data = H.data.copy()
                E = rec.compute_user_embedding(H)
                check_rows(ctx, C, v, None, E, cfg, True, f"{msg} user embedding ({name})")
                I = rec.compute_item_embedding(H)
                check_rows(ctx, C.T, u, None, I, cfg, True, f"{msg} item embedding ({name})")
                S = rec.get_score_cold_user(H)
                ctx.check(np.allclose(S, E @ v.T, atol=1e-5), f"{msg}: cold scores ({name})")
                ctx.check(np.array_equal(H.data, data) and H.nnz == len(data), f"{msg}: history modified")
            ctx.check(np.allclose(rec.get_score(np.arange(D.shape[0])), u @ v.T, atol=1e-5), f"{msg}: scores")
            ctx.step(4)


def misc(tier):
    def gen():
        yield ["block"]
        yield ["big"]
        yield ["reject"]
        for std in (0.0, 0.1, 1.0):
            for k in (1, 4, 16):
                yield ["init", std, k]
        for solver in ("CG", "CHOLESKY", "IALSPP"):
            for dim in (1, 2, 64):
                yield ["empty", solver, dim]
                yield ["converge", solver, dim]
    return gen


def run_misc(ctx, case):
    import numpy as np
    import scipy.sparse as sps
    from irspack.recommenders import IALSRecommender

    cfg = dict(alpha0=0.1, reg=0.3, nu=1.0, loss="IALSPP")
    if case[0] == "block":
        D = np.ones((4, 3))
        t = R.core(D, 2, cfg)
        P = t.user @ t.item.T
        for th in (1, 2, 3):
            sol = R.solver("CG", threads=th)
            for b in range(6):
                for e in range(6):
                    if 0 <= b <= e <= 4:
                        S = t.user_scores(b, e, sol)
                        ctx.check(S.shape == (e - b, 3) and np.allclose(S, P[b:e], atol=1e-6), f"user_scores({b},{e}) threads {th}")
                    else:
                        ctx.raises((ValueError, RuntimeError, IndexError), lambda: t.user_scores(b, e, sol), f"user_scores({b},{e})")
                    ctx.step()
        ctx.raises((ValueError, RuntimeError), lambda: t.user_scores(0, 4, R.solver("CG", threads=0)), "no threads")
    elif case[0] == "big":
        for n in (1, 15, 16, 17, 64, 65, 127, 128, 129, 200, 700):
            t = R.core(np.eye(n, 3), 2, cfg)
            t.user = R.factors(n, 2, 3)
            P = t.user @ t.item.T
            for th in (1, 2, 4, 9):
                for b, e in {(0, n), (n // 3, n), (0, n - 1), (min(1, n), n)}:
                    S = t.user_scores(b, e, R.solver("CG", threads=th))
                    ctx.check(S.shape == (e - b, 3) and np.allclose(S, P[b:e], atol=1e-6), f"user_scores({b},{e}) of {n} threads {th}")
                    ctx.step()
    elif case[0] == "reject":
        D = np.array([[1.0, 0, 2], [0, 1, 0]])
        t = R.core(D, 2, cfg)
        for kind in ("CG", "CHOLESKY", "IALSPP"):
            bad = R.solver(kind, threads=0)
            ok = R.solver(kind, threads=1)
            ctx.raises((ValueError, RuntimeError), lambda: t.step(bad), f"{kind}: step with no threads")
            ctx.raises((ValueError, RuntimeError), lambda: t.compute_loss(bad), f"{kind}: loss with no threads")
            ctx.raises((ValueError, RuntimeError), lambda: t.transform_user(sps.csr_matrix(D.astype(np.float32)), bad), f"{kind}: fold-in with no threads")
            for sh in ((1, 2), (1, 4), (2, 0)):
                ctx.raises((ValueError, RuntimeError), lambda: t.transform_user(sps.csr_matrix(sh, dtype=np.float32), ok), f"{kind}: history of shape {sh}")
            for sh in ((1, 2), (3, 2), (0, 2)):
                ctx.raises((ValueError, RuntimeError), lambda: t.transform_item(sps.csr_matrix(sh, dtype=np.float32), ok), f"{kind}: item history of shape {sh}")
            ctx.step(9)
        X = sps.csr_matrix(D)
        for kw in (dict(solver_type="LU"), dict(loss_type="X"), dict(confidence_scaling="sqrt")):
            ctx.raises(Exception, lambda: IALSRecommender(X, **kw), f"{kw}")
        rec = IALSRecommender(X, n_components=2, n_threads=1, alpha0=0.1)
        ctx.raises(Exception, lambda: rec.get_score(np.arange(2)), "scores before training")
        ctx.step(4)
    elif case[0] == "init":
        _, std, k = case
        t1 = IALSRecommender(sps.csr_matrix(np.ones((400, 300))), n_components=k, init_std=std, random_seed=3, n_threads=1)
        t1.start_learning()
        t2 = IALSRecommender(sps.csr_matrix(np.ones((400, 300))), n_components=k, init_std=std, random_seed=3, n_threads=1)
        junk = [np.full(50000, 7.0) for _ in range(20)]
        t2.start_learning()
        del junk
        for a, b in ((t1.get_user_embedding(), t2.get_user_embedding()), (t1.get_item_embedding(), t2.get_item_embedding())):
            ctx.check(np.array_equal(a, b), f"{case}: initial factors are not determined by the seed")
            s = float(np.sqrt((a.astype(float) ** 2).mean())) if np.isfinite(a).all() else float("nan")
            want = std / np.sqrt(k)
            ctx.check(abs(s - want) <= 0.25 * want, f"{case}: initial standard deviation {s}, expected {want}")
        ctx.step()
    elif case[0] == "empty":
        # rows and columns without interactions, default alpha0 = 0 included
        _, kind, dim = case
        for alpha0 in ALPHA:
            for nu in NU:
                for code in range(2 ** 6):
                    D = mat(code, (2, 3), 2)
                    rec = IALSRecommender(sps.csr_matrix(D), n_components=3, alpha0=alpha0, nu=nu, solver_type=kind, ialspp_subspace_dimension=dim, n_threads=1, train_epochs=2).learn()
                    msg = f"{case} alpha0={alpha0} nu={nu} X={D.tolist()}"
                    u, v = rec.get_user_embedding(), rec.get_item_embedding()
                    ctx.check(np.isfinite(u).all() and np.isfinite(v).all(), f"{msg}: non-finite factors {u.tolist()} {v.tolist()}")
                    E = rec.compute_user_embedding(sps.csr_matrix((2, 3)))
                    I = rec.compute_item_embedding(sps.csr_matrix((2, 4)))
                    ctx.check(E.shape == (2, 3) and not E.any(), f"{msg}: embedding of an empty history {E.tolist()}")
                    ctx.check(I.shape == (4, 3) and not I.any(), f"{msg}: embedding of an item without interactions {I.tolist()}")
                    ctx.step()
    else:
        # training goes on to a stationary point of the whole objective
        _, kind, dim = case
        for code in range(3 ** 4):
            D = mat(code, (2, 2), 3)
            for loss in LOSS:
                cfg = dict(alpha0=0.2, reg=0.3, nu=1.0, loss=loss)
                t = R.core(D, 2, cfg, init=1.0)
                sol = R.solver(kind, cg=2, dim=dim)
                for _ in range(150):
                    t.step(sol)
                L1 = R.loss(D, t.user.astype(float), t.item.astype(float), cfg)
                u, v = t.user.astype(float), t.item.astype(float)
                for _ in range(3):
                    u = R.solve_side(D, v, cfg)
                    v = R.solve_side(D.T, u, cfg)
                L2 = R.loss(D, u, v, cfg)
                ctx.check(L1 <= L2 + 2e-3 * (1 + abs(L2)), f"{case} {loss} X={D.tolist()}: not converged, objective {L1}, further descent reaches {L2}")
            ctx.step(2)


def families(tier):
    return {"progress": (progress.cases(("CG", "CHOLESKY", "IALSPP", "CG+log"), tier), progress.run), "steps": (matrices(tier), run_m), "sizes": (lengths(tier), run_len), "recommender": (recs(tier), run_rec), "misc": (misc(tier), run_misc)}
