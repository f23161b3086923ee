"""Double-precision reference of the (feature-aware) iALS objective."""
import numpy as np


def reg_of(nnz, other, cfg):
    base = cfg["alpha0"] * other + nnz
    return cfg["reg"] * (base ** cfg["nu"] if (base > 0 or cfg["nu"] == 0) else 0.0)


def bias(cfg):
    return 0.0 if cfg["loss"] == "IALSPP" else cfg["alpha0"]


def system(x, V, cfg, prior=None):
    """A, b of the normal equations of one row with interactions x against V"""
    S = np.nonzero(x)[0]
    r = reg_of(len(S), V.shape[0], cfg)
    A = cfg["alpha0"] * V.T @ V + (V[S].T * x[S]) @ V[S] + r * np.eye(V.shape[1])
    b = ((x[S] + bias(cfg))[:, None] * V[S]).sum(axis=0)
    if prior is not None:
        b = b + r * prior
    return A, b


def minimizer(x, V, cfg, prior=None):
    A, b = system(x, V, cfg, prior)
    if not np.any(x) and prior is None:
        return np.zeros(V.shape[1])
    return np.linalg.solve(A, b)


def row_obj(u, x, V, cfg, prior=None):
    """the row's part of the objective, up to a constant"""
    A, b = system(x, V, cfg, prior)
    return 0.5 * u @ A @ u - b @ u


def solve_side(X, V, cfg, prior=None):
    return np.array([minimizer(X[i], V, cfg, None if prior is None else prior[i]) for i in range(X.shape[0])]).reshape(X.shape[0], V.shape[1])


def weights(X, other, cfg):
    return np.array([reg_of(np.count_nonzero(x), other, cfg) for x in X])


def ridge(F, R, U, lam):
    return np.linalg.solve(F.T @ (R[:, None] * F) + lam * np.eye(F.shape[1]), F.T @ (R[:, None] * U))


def loss(X, U, V, cfg, uf=None, itf=None, wu=None, wi=None):
    S = X != 0
    P = U @ V.T
    t = ((X + bias(cfg)) * (P - 1) ** 2)[S].sum() - (bias(cfg) * P ** 2)[S].sum()
    t += cfg["alpha0"] * (P ** 2).sum()
    ru = weights(X, X.shape[1], cfg)
    ri = weights(X.T, X.shape[0], cfg)
    du = U if uf is None else U - uf @ wu
    di = V if itf is None else V - itf @ wi
    t += (ru * (du ** 2).sum(axis=1)).sum() + (ri * (di ** 2).sum(axis=1)).sum()
    if uf is not None:
        t += cfg["lam_u"] * (wu ** 2).sum()
    if itf is not None:
        t += cfg["lam_i"] * (wi ** 2).sum()
    return t / 2


def factors(n, k, salt):
    """distinct generic values in [-1, 1]"""
    i = np.arange(n * k, dtype=np.float64).reshape(n, k)
    return np.sin(1.7 * (i + 1) + 2.3 * salt + 0.31 * (i + salt) ** 2).astype(np.float32)


def core(X, K, cfg, F=None, G=None, warm=0, seed=1, init=0.1):
    import scipy.sparse as sps
    from irspack.recommenders import _ials_core as C

    b = (C.IALSModelConfigBuilder().set_K(K).set_alpha0(cfg["alpha0"]).set_reg(cfg["reg"]).set_nu(cfg["nu"])
         .set_init_stdev(init).set_random_seed(seed).set_loss_type(getattr(C.LossType, cfg["loss"])))
    Xs = X if sps.issparse(X) else sps.csr_matrix(X.astype(np.float32))
    if F is None and G is None:
        return C.IALSTrainer(b.build(), Xs)
    b = b.set_lambda_user_feature(cfg["lam_u"]).set_lambda_item_feature(cfg["lam_i"]).set_feature_warmup_epochs(warm)
    F = sps.csr_matrix((X.shape[0], 0), dtype=np.float32) if F is None else F
    G = sps.csr_matrix((X.shape[1], 0), dtype=np.float32) if G is None else G
    return C.IALSTrainer(b.build(), Xs, F, G)


def solver(kind, threads=1, cg=0, dim=64, it=1):
    from irspack.recommenders import _ials_core as C

    return (C.IALSSolverConfigBuilder().set_n_threads(threads).set_solver_type(getattr(C.SolverType, kind))
            .set_max_cg_steps(cg).set_ialspp_subspace_dimension(dim).set_ialspp_iteration(it).build())
