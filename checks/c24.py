"""C24: feature-aware iALS."""
from checks.c21 import mat
from checks.c23 import check_rows
from vf import alsref as R
from vf import progress

LEVEL = "model_checking"
RULE = (
    "The feature-aware trainer is driven for three epochs over enumerated interaction matrices, enumerated user and item feature matrices (absent, zero, one-hot, dense "
    "generic, more features than rows), sparse and dense storage, warm-up lengths, loss variants, exponents and solvers. After every epoch every factor row is checked in "
    "double precision against the normal equations with the feature prior in force, every feature map against its ridge regression, and the reported loss against the "
    "stated objective, which must not increase. Feature-only, hybrid and extended-item scores are compared with the formulas from the learnt factors and maps; "
    "inconsistent shapes, missing features and non-positive penalties must be rejected."
)
ASSUMPTIONS = ["Non-negative interactions, positive regularization; single-precision tolerance as in C23.",
               "With alpha0 = 0 and nu > 0 a row without interactions has no unique embedding; the code's documented error is required there."]
BOUNDS = {"quick": "all 3^4 2x2 and 2^6 3x2 matrices x 6 user x 6 item feature kinds (rotating 1/6) x {sparse,dense} x warm-up 0..2 x 2 losses x alpha0 {0.1,1} x nu {0,1} x 3 solvers; threads 1..3; feature maps with K 1..5 x threads 1..6; each row emptied in turn; models scored, trained further and refitted",
          "thorough": "all feature kind pairs; 2^9 3x3 matrices"}


def setup():
    from vf.load import install

    install()
    import irspack.recommenders  # noqa


KINDS = ["none", "zero", "onehot", "dense", "wide", "one"]


def feats(kind, n, salt):
    import numpy as np

    if kind == "none":
        return None
    if kind == "zero":
        return np.zeros((n, 2), dtype=np.float32)
    if kind == "onehot":
        return np.eye(2, dtype=np.float32)[np.arange(n) % 2]
    if kind == "dense":
        return R.factors(n, 2, 20 + salt)
    if kind == "wide":
        return R.factors(n, 4, 30 + salt)
    return np.ones((n, 1), dtype=np.float32)


def store(F, form):
    import scipy.sparse as sps

    if F is None or form == "dense":
        return F
    return sps.csr_matrix(F)


def cases_m(tier):
    t = tier == "thorough"

    def gen():
        i = 0
        for shape, base in (((2, 2), 3), ((3, 2), 2)) + ((((3, 3), 2),) if t else ()):
            for c in range(base ** (shape[0] * shape[1])):
                for a, ku in enumerate(KINDS):
                    for b, ki in enumerate(KINDS):
                        i += 1
                        if not t and (a + b + c) % 6:
                            continue
                        yield ["m", list(shape), base, c, ku, ki]
    return gen


def run_m(ctx, case):
    _, shape, base, c, ku, ki = case
    D = mat(c, shape, base)
    i = 0
    for warm in (0, 1, 2):
        for loss in ("IALSPP", "ORIGINAL"):
            for alpha0 in (0.1, 1.0):
                for nu in (0.0, 1.0):
                    i += 1
                    kind, cg, exact = [("CHOLESKY", 0, True), ("CG", 0, True), ("CG", 1, False)][(i + c) % 3]
                    one(ctx, D, ku, ki, warm, dict(alpha0=alpha0, reg=0.3, nu=nu, loss=loss, lam_u=0.2, lam_i=0.5), kind, cg, exact, 1 + (i + c) % 3, (i + c // 3) % 2)
    ctx.step(i * 6)


def prior_rows(ctx, X, V, old, new, cfg, exact, prior, msg):
    check_rows(ctx, X, V, old, new, cfg, exact, msg, prior=prior, tol=3e-4)


def one(ctx, D, ku, ki, warm, cfg, kind, cg, exact, threads, order, K=2):
    import numpy as np
    import scipy.sparse as sps

    nu_, ni = D.shape
    F, G = feats(ku, nu_, 0), feats(ki, ni, 5)
    form = ("sparse", "dense") if order else ("dense", "sparse")
    msg = f"{kind} cg={cg} {cfg} warm={warm} user features {ku} ({form[0]}) item features {ki} ({form[1]}) threads={threads} X={D.tolist()}"
    sol = R.solver(kind, threads=threads, cg=cg)
    t = R.core(D, K, cfg, store(F, form[0]), store(G, form[1]), warm=warm)
    t2 = R.core(D, K, cfg, store(F, form[1]), store(G, form[0]), warm=warm)
    for x in (t, t2):
        x.user = R.factors(nu_, K, 3)
        x.item = R.factors(ni, K, 8)
    f64 = lambda a: None if a is None else a.astype(np.float64)
    F64, G64 = f64(F), f64(G)
    if F is None and G is None:
        warm = 99
    nf, ng = (0 if F is None else F.shape[1]), (0 if G is None else G.shape[1])
    wu, wi = np.zeros((nf, K)), np.zeros((ng, K))
    ru, ri = R.weights(D, ni, cfg), R.weights(D.T, nu_, cfg)

    def obj(u, v, a, b):
        return R.loss(D, f64(u), f64(v), cfg, F64, G64, None if F is None else a, None if G is None else b)

    prev = obj(t.user, t.item, wu, wi)
    for e in range(3):
        u0, v0 = t.user.copy(), t.item.copy()
        got = t.compute_loss(sol)
        ctx.check(abs(got - prev) <= 2e-4 * (1 + abs(prev)), lambda: f"{msg} epoch {e}: reported loss {got}, objective {prev}")
        t.step(sol)
        t2.step(sol)
        on = e >= warm
        pu = F64 @ wu if on and F is not None else None
        pi = G64 @ wi if on and G is not None else None
        u1, v1 = t.user.copy(), t.item.copy()
        check_rows(ctx, D, v0, u0, u1, cfg, exact, f"{msg} epoch {e} users", prior=pu, tol=3e-4)
        check_rows(ctx, D.T, u1, v0, v1, cfg, exact, f"{msg} epoch {e} items", prior=pi, tol=3e-4)
        if on and F is not None:
            wu = R.ridge(F64, ru, f64(u1), cfg["lam_u"])
            a = np.asarray(t.user_feature_weight)
            ctx.check(a.shape == wu.shape and np.allclose(a, wu, atol=1e-3), lambda: f"{msg} epoch {e}: user feature map {a.tolist()}, expected {wu.tolist()}")
            wu = f64(a)
        if on and G is not None:
            wi = R.ridge(G64, ri, f64(v1), cfg["lam_i"])
            a = np.asarray(t.item_feature_weight)
            ctx.check(a.shape == wi.shape and np.allclose(a, wi, atol=1e-3), lambda: f"{msg} epoch {e}: item feature map {a.tolist()}, expected {wi.tolist()}")
            wi = f64(a)
        if not on and (F is not None or G is not None):
            ctx.check(not np.any(t.user_feature_weight) and not np.any(t.item_feature_weight), f"{msg} epoch {e}: feature maps change during warm-up")
        for x, y, n in ((t.user, t2.user, "user"), (t.item, t2.item, "item"), (t.user_feature_weight, t2.user_feature_weight, "user map"), (t.item_feature_weight, t2.item_feature_weight, "item map")):
            ctx.check(np.allclose(x, y, atol=2e-3), lambda: f"{msg} epoch {e}: {n} differs between dense and sparse features: {x} {y}")
        cur = obj(u1, v1, wu, wi)
        ctx.check(cur <= prev + 2e-4 * (1 + abs(prev)), lambda: f"{msg} epoch {e}: objective increased from {prev} to {cur}")
        prev = cur
    if exact and (F is None or ku == "zero") and (G is None or ki == "zero"):
        p = R.core(D, K, cfg)
        p.user, p.item = R.factors(nu_, K, 3), R.factors(ni, K, 8)
        for _ in range(3):
            p.step(sol)
        ctx.check(np.allclose(p.user, t.user, atol=2e-3) and np.allclose(p.item, t.item, atol=2e-3), f"{msg}: zero features differ from the plain model")
    # fold-in, with and without features
    Xs = sps.csr_matrix(D.astype(np.float32))
    full = R.solver(kind, threads=threads, cg=0)
    if F is not None:
        H = R.factors(nu_, nf, 40) if nf else F
        for frm in ("dense", "sparse"):
            prior = f64(H) @ wu
            E = t.transform_user_with_feature(Xs, store(H, frm), full)
            check_rows(ctx, D, v1, None, E, cfg, True, f"{msg} hybrid users ({frm})", prior=prior, tol=1e-3)
            E = t.transform_user_with_feature(sps.csr_matrix((nu_, ni), dtype=np.float32), store(H, frm), full)
            check_rows(ctx, np.zeros_like(D), v1, None, E, cfg, True, f"{msg} feature-only users ({frm})", prior=prior, tol=1e-3)
            P = t.transform_user_feature(store(H, frm))
            ctx.check(np.allclose(P, prior, atol=1e-4), f"{msg}: projection of user features ({frm})")
        ctx.raises((ValueError, RuntimeError), lambda: t.transform_user_feature(np.zeros((1, nf + 1), np.float32)), f"{msg}: wrong feature width")
        ctx.raises((ValueError, RuntimeError), lambda: t.transform_user_with_feature(Xs, np.zeros((nu_ + 1, nf), np.float32), full), f"{msg}: wrong number of feature rows")
    else:
        ctx.raises((ValueError, RuntimeError), lambda: t.transform_user_feature(np.zeros((1, 1), np.float32)), f"{msg}: user features on a model without")
    if G is not None:
        H = R.factors(ni, ng, 50)
        for frm in ("dense", "sparse"):
            prior = f64(H) @ wi
            E = t.transform_item_with_feature(Xs, store(H, frm), full)
            check_rows(ctx, D.T, u1, None, E, cfg, True, f"{msg} hybrid items ({frm})", prior=prior, tol=1e-3)
            E = t.transform_item_with_feature(sps.csr_matrix((nu_, ni), dtype=np.float32), store(H, frm), full)
            check_rows(ctx, np.zeros_like(D.T), u1, None, E, cfg, True, f"{msg} feature-only items ({frm})", prior=prior, tol=1e-3)
            P = t.transform_item_feature(store(H, frm))
            ctx.check(np.allclose(P, prior, atol=1e-4), f"{msg}: projection of item features ({frm})")
        ctx.raises((ValueError, RuntimeError), lambda: t.transform_item_feature(np.zeros((1, ng + 1), np.float32)), f"{msg}: wrong feature width")
        ctx.raises((ValueError, RuntimeError), lambda: t.transform_item_with_feature(Xs, np.zeros((ni + 1, ng), np.float32), full), f"{msg}: wrong number of feature rows")
    else:
        ctx.raises((ValueError, RuntimeError), lambda: t.transform_item_feature(np.zeros((1, 1), np.float32)), f"{msg}: item features on a model without")
    # plain fold-in ignores the features
    E = t.transform_user(Xs, full)
    check_rows(ctx, D, v1, None, E, cfg, True, f"{msg} history-only users", tol=1e-3)
    ctx.check(np.array_equal(t.user, u1) and np.array_equal(t.item, v1), f"{msg}: fold-in changed the model")


def cases_t(tier):
    def gen():
        for K in range(1, 6):
            for th in range(1, 7):
                yield ["t", K, th]
    return gen


def run_t(ctx, case):
    """more latent dimensions than threads and the other way round; larger sides"""
    import numpy as np

    _, K, th = case
    D = np.array([[(i * 7 + j * 3) % 4 % 3 for j in range(20)] for i in range(35)], dtype=float)
    D[4] = 0
    for ku, ki in (("dense", "onehot"), ("wide", "none"), ("none", "wide"), ("onehot", "dense"), ("zero", "one")):
        for loss in ("IALSPP", "ORIGINAL"):
            for order in (0, 1):
                one(ctx, D, ku, ki, 0, dict(alpha0=0.1, reg=0.3, nu=1.0, loss=loss, lam_u=0.2, lam_i=0.5), "CHOLESKY", 0, True, th, order, K=K)
                ctx.step(6)


def cases_r(tier):
    def gen():
        for c in range(2 ** 6):
            yield ["r", [3, 2], 2, c]
        for c in range(3 ** 4):
            yield ["r", [2, 2], 3, c]
    return gen


def run_r(ctx, case):
    """the recommender's own routes"""
    import numpy as np
    import scipy.sparse as sps
    from irspack.recommenders import IALSRecommender

    _, shape, base, c = case
    D = mat(c, shape, base)
    nu_, ni = shape
    X = sps.csr_matrix(D)
    for j, (ku, ki, frm) in enumerate((("dense", "dense", "dense"), ("onehot", "wide", "sparse"), ("wide", "none", "dense"), ("none", "onehot", "sparse"))):
        for scal in ("none", "log"):
            C = D if scal == "none" else np.log(1 + D / 0.5)
            F, G = feats(ku, nu_, 0), feats(ki, ni, 5)
            kw = dict(n_components=2, alpha0=0.3, reg=0.2, nu=1.0, confidence_scaling=scal, epsilon=0.5, init_std=0.7, solver_type="CHOLESKY" if c % 2 else "CG", max_cg_steps=0,
                      loss_type="ORIGINAL" if (c // 2) % 2 else "IALSPP", random_seed=c, n_threads=1, train_epochs=3, prediction_time_max_cg_steps=0,
                      lambda_user_feature=0.2, lambda_item_feature=0.5, feature_warmup_epochs=c % 3)
            cfg = dict(alpha0=0.3, reg=0.2, nu=1.0, loss=kw["loss_type"])
            msg = f"{kw} features {ku}/{ki} {frm} X={D.tolist()}"
            as_user = store(F.astype(np.float64) if F is not None else None, frm)
            rec = IALSRecommender(X, user_features=as_user, item_features=store(G, frm), **kw)
            rec0 = IALSRecommender(X, user_features=as_user, item_features=store(G, frm), **kw)
            rec0.start_learning()
            U, V = rec0.get_user_embedding().astype(float), rec0.get_item_embedding().astype(float)
            wu = np.zeros((0 if F is None else F.shape[1], 2))
            wi = np.zeros((0 if G is None else G.shape[1], 2))
            for e in range(3):
                on = e >= c % 3
                U = R.solve_side(C, V, cfg, F @ wu if on and F is not None else None)
                if on and F is not None:
                    wu = R.ridge(F.astype(float), R.weights(D, ni, cfg), U, 0.2)
                V = R.solve_side(C.T, U, cfg, G @ wi if on and G is not None else None)
                if on and G is not None:
                    wi = R.ridge(G.astype(float), R.weights(D.T, nu_, cfg), V, 0.5)
            rec.learn()
            u, v = rec.get_user_embedding(), rec.get_item_embedding()
            ctx.check(np.allclose(u, U, atol=3e-3) and np.allclose(v, V, atol=3e-3), lambda: f"{msg}: trained factors {u.tolist()} {v.tolist()}, expected {U.tolist()} {V.tolist()}")
            hist = sps.csr_matrix(D[::-1])
            Ch = C[::-1]
            if F is not None:
                a = np.asarray(rec.trainer.core_trainer.user_feature_weight)
                H = R.factors(nu_, F.shape[1], 60)
                Hs = store(H, frm)
                pr = H.astype(float) @ a.astype(float)
                check_rows(ctx, Ch, v, None, rec.compute_user_embedding(hist, user_features=Hs), cfg, True, f"{msg} hybrid user", prior=pr, tol=1e-3)
                e0 = rec.compute_user_embedding_from_features(Hs)
                check_rows(ctx, np.zeros_like(C), v, None, e0, cfg, True, f"{msg} feature-only user", prior=pr, tol=1e-3)
                ctx.check(np.allclose(rec.get_score_cold_user_from_features(Hs), e0 @ v.T, atol=1e-4), f"{msg}: feature-only scores")
                ctx.check(np.allclose(rec.get_score_cold_user(hist, user_features=Hs), rec.compute_user_embedding(hist, user_features=Hs) @ v.T, atol=1e-4), f"{msg}: hybrid scores")
                ctx.raises((ValueError, RuntimeError), lambda: rec.compute_user_embedding(hist, user_features=H[:, :-1]), f"{msg}: narrower features")
                ctx.raises((ValueError, RuntimeError), lambda: rec.compute_user_embedding(hist, user_features=H[:-1]), f"{msg}: fewer features than users")
            else:
                ctx.raises((ValueError, RuntimeError, NotImplementedError), lambda: rec.compute_user_embedding_from_features(np.ones((1, 1))), f"{msg}: no user features learnt")
            S0 = rec.get_score_cold_user(hist)
            ctx.check(np.allclose(S0, rec.compute_user_embedding(hist) @ v.T, atol=1e-4), f"{msg}: cold scores")
            if G is not None:
                b = np.asarray(rec.trainer.core_trainer.item_feature_weight)
                for n in (0, 1, 3):
                    H = R.factors(n, G.shape[1], 70)
                    Hs = store(H, frm)
                    S = rec.get_score_cold_user_with_item_features(hist, Hs)
                    ctx.check(S.shape == (nu_, ni + n) and np.allclose(S[:, :ni], S0, atol=1e-4), f"{msg}: known columns of the extended scores")
                    if n:
                        E = rec.compute_item_embedding_from_features(Hs)
                        check_rows(ctx, np.zeros((n, nu_)), u, None, E, cfg, True, f"{msg} feature-only item", prior=H.astype(float) @ b.astype(float), tol=1e-3)
                        ctx.check(np.allclose(S[:, ni:], rec.compute_user_embedding(hist) @ E.T, atol=1e-4), f"{msg}: new columns of the extended scores")
                        idx = np.array([nu_ - 1, 0])
                        ctx.check(np.allclose(rec.get_score_from_item_features(idx, Hs), u[idx] @ E.T, atol=1e-4), f"{msg}: scores from item features")
                    if n == 3:
                        Xi = sps.csr_matrix(np.array([[(i + k) % 2 for k in range(3)] for i in range(nu_)], dtype=float))
                        Ci = Xi.toarray() if scal == "none" else np.log(1 + Xi.toarray() / 0.5)
                        check_rows(ctx, Ci.T, u, None, rec.compute_item_embedding(Xi, item_features=Hs), cfg, True, f"{msg} hybrid item", prior=H.astype(float) @ b.astype(float), tol=1e-3)
                ctx.raises((ValueError, RuntimeError), lambda: rec.get_score_cold_user_with_item_features(hist, np.ones((1, G.shape[1] + 1))), f"{msg}: wider item features")
            else:
                ctx.raises((ValueError, RuntimeError, NotImplementedError), lambda: rec.get_score_cold_user_with_item_features(hist, np.ones((1, 1))), f"{msg}: no item features learnt")
            ctx.check(np.array_equal(rec.get_user_embedding(), u) and np.array_equal(rec.get_item_embedding(), v), f"{msg}: scoring changed the model")
            ctx.step(12)


def cases_x(tier):
    def gen():
        for side in ("user", "item", "both"):
            for why in ("rows+", "rows-", "lambda0", "lambda-", "ialspp", "empty"):
                for frm in ("dense", "sparse"):
                    yield ["x", side, why, frm]
    return gen


def run_x(ctx, case):
    import numpy as np
    import scipy.sparse as sps
    from irspack.recommenders import IALSRecommender

    _, side, why, frm = case
    D = np.array([[1.0, 0, 2], [0, 1, 0], [1, 1, 0], [0, 2, 0]])
    d = {"rows+": 1, "rows-": -1}.get(why, 0)
    lam = {"lambda0": 0.0, "lambda-": -1.0}.get(why, 0.1)
    kw = dict(n_components=2, n_threads=1, train_epochs=2, lambda_user_feature=0.1, lambda_item_feature=0.1, alpha0=0.1)
    for s in (("user", "item") if side == "both" else (side,)):
        n = (4 if s == "user" else 3) + d
        kw[f"{s}_features"] = store(R.factors(n, 2, 1), frm)
        kw[f"lambda_{s}_feature"] = lam
    if why == "ialspp":
        kw["solver_type"] = "IALSPP"
    if why == "empty":
        # no unique solution
        kw["alpha0"] = 0.0
        for st, k in [(a, b) for a in ("CG", "CHOLESKY") for b in range(4)]:
            # each row (column) in turn is the empty one, on the side whose rows have a feature prior
            D = np.array([[1.0, 1, 2], [0, 1, 1], [1, 1, 0], [2, 2, 1]])
            if side != "item":
                D[k] = 0
            if side != "user":
                D[:, k % 3] = 0
            ctx.raises((ValueError, RuntimeError), lambda: IALSRecommender(sps.csr_matrix(D), **kw, solver_type=st).learn(), f"{case}: row without interactions, alpha0=0")
            r = IALSRecommender(sps.csr_matrix(D), **{**kw, "nu": 0.0}, solver_type=st).learn()
            ctx.check(np.isfinite(r.get_user_embedding()).all() and np.isfinite(r.get_item_embedding()).all(), f"{case}: nu=0 non-finite")
    else:
        ctx.raises((ValueError, RuntimeError), lambda: IALSRecommender(sps.csr_matrix(D), **kw).learn(), f"{case}")
    ctx.step()


def families(tier):
    return {"progress": (progress.cases([k for k in progress.KINDS if "feat" in k], tier), progress.run), "epochs": (cases_m(tier), run_m), "threads": (cases_t(tier), run_t), "routes": (cases_r(tier), run_r), "reject": (cases_x(tier), run_x)}
