"""C29: popularity, SVD, NMF, BPR-FM and Mult-VAE models against what they document."""
import itertools

from checks.c21 import mat
from vf import progress
from vf import models as Z

LEVEL = "model_checking"
RULE = (
    "Every small interaction matrix (formats and number types rotating) is given to the popularity, SVD and NMF models over a grid of options and scores are compared with column sums, the optimal "
    "rank-k error and scikit-learn's factors. The LightFM wrapper is run with a recording stand-in for every combination of options and every sequence of operations (train, epoch, score). The variational autoencoder is "
    "run on stand-ins for jax, haiku and optax that record the batches and random keys of every update: batches must partition the users in every epoch, keys must be fresh, and the "
    "scores after every epoch must equal those of an independent numpy implementation of the documented objective, annealing and Adam step (gradient by central differences) replayed on the same batches; every number of scored histories across minibatch borders is enumerated."
)
ASSUMPTIONS = ["jax, haiku, optax and lightfm are replaced by stand-ins (vf/fake_jax.py, vf/fm_stub.py): double precision, exact gradients (vf/tape.py), draws that depend on shape only (value checks) or on the key (freshness checks).",
               "scikit-learn's decompositions are trusted; at least one history is scored."]
BOUNDS = {"quick": "popularity: all 3^6 2x3/3x2; SVD: all 2^9 3x3 and 3^6 2x3/3x2 x ranks 1..4; NMF: 2^9 x rotating options; LightFM: 2^4 option settings x epochs 0..3; autoencoder: 1..5 users x minibatch 1..6 x anneal 1..3 x dropout {0, 0.5} x decoder width x 3 epochs, 1..13 scored histories; item totals beyond 2^24, 2^31 and 2^40; models scored, trained further and refitted",
          "thorough": "SVD also 2^12 3x4/4x3; autoencoder 1..7 users, all 2^6 histories of 2 x 3 items"}


def setup():
    Z.setup()


def fmt(D, v):
    import numpy as np
    import scipy.sparse as sps

    X = sps.csr_matrix(D)
    return [X, X.tocsc(), X.astype(np.float32), X.astype(np.int64) if (D == D.astype(int)).all() else X.tocsc()][v % 4]


# ----------------------------------------------------------- linear algebra
def cases_lin(tier):
    def gen():
        for c in range(3 ** 6):
            yield ["pop", [2, 3], 3, c]
            yield ["pop", [3, 2], 3, c]
        for c in range(2 ** 9):
            yield ["svd", [3, 3], 2, c]
            yield ["nmf", [3, 3], 2, c]
        for c in range(3 ** 6):
            yield ["svd", [2, 3] if c % 2 else [3, 2], 3, c]
        if tier == "thorough":
            for c in range(2 ** 12):
                yield ["svd", [3, 4], 2, c]
                yield ["svd", [4, 3], 2, c]
                yield ["nmf", [4, 3], 2, c]
        for n in range(1, 9):
            yield ["wide", n]
        for v in (2.0**24, 2.0**31, 2.0**40):
            yield ["total", v]
        yield ["before"]
    return gen


def run_lin(ctx, case):
    import warnings

    import numpy as np
    import scipy.sparse as sps

    import irspack.recommenders as R

    warnings.simplefilter("ignore")
    kind = case[0]
    if kind == "before":
        X = sps.csr_matrix(np.eye(3))
        for n in ("TopPopRecommender", "TruncatedSVDRecommender", "NMFRecommender", "BPRFMRecommender", "MultVAERecommender"):
            ctx.raises(Exception, lambda: getattr(R, n)(X).get_score(np.arange(2)), f"{n} scored before learning")
        return ctx.step(5)
    if kind == "total":
        v = case[1]
        D = np.asarray([[v, 1.0, 0.0], [1.0, 0.0, 3.0], [1.0, v, 0.0]])
        for X in (sps.csr_matrix(D), sps.csc_matrix(D)) + (sps.csr_matrix(D).astype(np.int64),):
            rec = R.TopPopRecommender(X).learn()
            got = np.asarray(rec.get_score(np.arange(2)))
            ctx.check(np.array_equal(got, np.tile(D.sum(axis=0), (2, 1))), lambda: f"totals with value {v} ({X.format}, {X.dtype}): {got.tolist()}")
        return ctx.step(3)
    if kind == "wide":
        n = case[1]
        D = np.asarray([[((u * 5 + i * 3 + u * i) % 7) * ((u + 2 * i) % 3 > 0) * 1.0 for i in range(8)] for u in range(6)])
        return svd(ctx, R, D, fmt(D, n), n, 0, f"6x8, n_components={n}")
    _, shape, base, c = case
    D = mat(c, shape, base)
    if base == 3 and c % 2:
        D = D * 1.25
    X = fmt(D, c)
    msg = f"{kind} X={D.tolist()} format {c % 4}"
    if kind == "pop":
        rec = R.TopPopRecommender(X).learn()
        want = D.sum(axis=0)
        for sel in ([0], [1, 0, 1], list(range(shape[0]))):
            ctx.check(np.array_equal(np.asarray(rec.get_score(np.array(sel))), np.tile(want, (len(sel), 1))), lambda: f"{msg}: scores of users {sel} {np.asarray(rec.get_score(np.array(sel))).tolist()}, item totals {want.tolist()}")
            cold = sps.csr_matrix(np.ones((len(sel), shape[1])))
            ctx.check(np.array_equal(np.asarray(rec.get_score_cold_user(cold)), np.tile(want, (len(sel), 1))), lambda: f"{msg}: cold scores")
        ctx.outcome(tuple(want))
        return ctx.step(6)
    if kind == "svd":
        if not D.any():
            return ctx.step(0)
        for i, k in enumerate(range(1, shape[1] + 2)):
            svd(ctx, R, D, X, k, (c + i) % 3, f"{msg} n_components={k} seed={(c + i) % 3}")
        return
    # NMF
    from sklearn.decomposition import NMF

    if np.linalg.matrix_rank(D) < 2:
        return ctx.step(0)
    for i, (k, a, l1, init) in enumerate(itertools.product((1, 2), (0.0, 0.01, 0.3), (0.0, 0.7), (None, "random"))):
        if (i + c) % 6:
            continue
        rec = R.NMFRecommender(X, n_components=k, alpha=a, l1_ratio=l1, init=init).learn()
        m = NMF(n_components=k, alpha_W=a, l1_ratio=l1, init=init, beta_loss="frobenius", random_state=42)
        W = m.fit_transform(sps.csr_matrix(D))
        want = W @ m.components_
        got = np.asarray(rec.get_score(np.arange(shape[0])))
        ctx.check(np.allclose(got, want, rtol=1e-3, atol=1e-4), lambda: f"{msg} n_components={k} alpha={a} l1_ratio={l1} init={init}: scores {got.tolist()}, scikit-learn's factors give {want.tolist()}")
        ctx.step(2)
        if not m.components_.any():
            continue
        cold = np.asarray(rec.get_score_cold_user(X))
        want = m.transform(X.tocsr().astype(m.components_.dtype)) @ m.components_
        ctx.check(np.allclose(cold, want, rtol=1e-3, atol=1e-4), lambda: f"{msg}: cold scores {cold.tolist()}, scikit-learn's factors give {want.tolist()}")
        ctx.outcome(tuple(np.round(got, 4).ravel()))


def svd(ctx, R, D, X, k, seed, msg):
    import numpy as np

    nu, ni = D.shape
    rec = R.TruncatedSVDRecommender(X, n_components=k, random_seed=seed).learn()
    S = np.asarray(rec.get_score(np.arange(nu)), float)
    kk = min(k, ni - 1)
    sv = np.linalg.svd(D, compute_uv=False)
    best = float((sv[kk:] ** 2).sum())
    err = float(((S - D) ** 2).sum())
    sc = float((sv ** 2).sum())
    ctx.check(abs(err - best) <= 1e-4 * sc, lambda: f"{msg}: squared error {err}, best rank-{kk} approximation {best}")
    ctx.check(np.linalg.matrix_rank(S, tol=1e-3 * np.sqrt(sc)) <= kk, lambda: f"{msg}: scores of rank above {kk}")
    # projecting any history onto the learnt item space
    B = np.asarray(rec.get_item_embedding(), float)
    ctx.check(np.allclose(np.asarray(rec.get_score_cold_user(X), float), D @ B @ B.T, rtol=1e-3, atol=1e-3 * np.sqrt(sc)), lambda: f"{msg}: cold scores")
    ctx.outcome(round(err, 5))
    ctx.step(2)


# ------------------------------------------------------------------ LightFM
def cases_fm(tier):
    def gen():
        for n, (k, ia, ua, loss, th) in enumerate(itertools.product((1, 3), (1e-9, 0.2), (1e-9, 0.1), ("bpr", "warp"), (1, 3, None))):
            for ep in range(4):
                yield ["fm", k, ia, ua, loss, th, ep]
        yield ["fm-bad"]
    return gen


def run_fm(ctx, case):
    import os

    import numpy as np
    import scipy.sparse as sps

    import lightfm
    from irspack.recommenders import BPRFMRecommender
    from irspack.recommenders import bpr as mod

    D = np.asarray([[1.0, 0, 2, 0], [0, 3, 0, 1], [0, 0, 0, 0]])
    if case[0] == "fm-bad":
        for bad in ("logistic", "", "BPR", None):
            ctx.raises((ValueError, TypeError), lambda: BPRFMRecommender(sps.csr_matrix(D), loss=bad), f"loss {bad!r}")
        return ctx.step(4)
    _, k, ia, ua, loss, th, ep = case
    log = []

    class FM(lightfm.LightFM):
        def __init__(self, *a, **kw):
            log.append(("new", a, kw))
            super().__init__(*a, **kw)

        def fit_partial(self, X, *a, **kw):
            log.append(("fit", X.toarray(), a, kw))
            return super().fit_partial(X, *a, **kw)

        def fit(self, *a, **kw):
            raise AssertionError("fit() starts training anew")

    old = mod.LightFM
    env = os.environ.get("IRSPACK_NUM_THREADS_DEFAULT")
    os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = "2"
    mod.LightFM = FM
    try:
        for f in range(3):
            X = fmt(D, f)
            keep = X.copy()
            kw = dict(n_components=k, item_alpha=ia, user_alpha=ua, loss=loss, train_epochs=ep)
            if th is not None:
                kw["n_threads"] = th
            log.clear()
            rec = BPRFMRecommender(X, **kw).learn()
            msg = f"LightFM {kw} format {f}"
            news = [e for e in log if e[0] == "new"]
            ctx.eq(len(news), 1, f"{msg}: models created")
            names = ("no_components", "item_alpha", "user_alpha", "loss")
            got = {**dict(zip(("no_components",), news[0][1])), **news[0][2]}
            ctx.eq({q: got.get(q) for q in names}, dict(no_components=k, item_alpha=ia, user_alpha=ua, loss=loss), f"{msg}: LightFM options")
            fits = [e for e in log if e[0] == "fit"]
            ctx.eq(len(fits) * (1 if not fits else fits[0][3].get("epochs", 1)), ep, f"{msg}: training epochs")
            for e in fits:
                ctx.check(np.array_equal(e[1], D), lambda: f"{msg}: trained on {e[1].tolist()}")
                ctx.eq(e[3].get("num_threads"), 2 if th is None else th, f"{msg}: threads")
            ctx.check(np.array_equal(X.toarray(), keep.toarray()), f"{msg}: training data modified")
            if ep == 0:
                continue
            fm = rec.fm
            want = fm.user_embeddings @ fm.item_embeddings.T + fm.item_biases
            for sel in ([0], [2, 0, 2], [0, 1, 2]):
                ctx.check(np.allclose(rec.get_score(np.array(sel)), want[sel], rtol=1e-5, atol=1e-6), lambda: f"{msg}: scores {sel}")
            ctx.check(np.allclose(rec.get_score_block(1, 3), want[1:3], rtol=1e-5, atol=1e-6), lambda: f"{msg}: block scores")
            ctx.outcome(tuple(np.round(want, 4).ravel()))
            ctx.step(4)
    finally:
        mod.LightFM = old
        if env is None:
            del os.environ["IRSPACK_NUM_THREADS_DEFAULT"]
        else:
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = env


# ------------------------------------------------------ variational autoencoder
class Ref:
    """The documented model: encoder -> mean, log-variance; decoder -> log-softmax."""

    def __init__(self, ni, z, enc, dec, drop, lr):
        import numpy as np

        from vf.fake_jax import weights

        dec = enc if dec is None else dec
        self.z, self.drop, self.lr = z, drop, lr
        dims = [(ni, enc), (enc, 2 * z), (z, dec), (dec, ni)]
        self.p = []
        for a, b in dims:
            self.p += [weights(a, b), np.zeros(b)]
        self.m = [np.zeros_like(x) for x in self.p]
        self.v = [np.zeros_like(x) for x in self.p]
        self.t = 0

    def forward(self, p, X, train):
        import numpy as np

        from vf.fake_jax import dropout_mask

        h = X / np.sqrt((X * X).sum(axis=1, keepdims=True) + 1e-8)
        if train and self.drop:
            h = h * dropout_mask(self.drop, h.shape) / (1 - self.drop)
        h = np.tanh(h @ p[0] + p[1]) @ p[2] + p[3]
        mu, lv = h[:, : self.z], h[:, self.z:]
        zz = mu
        if train:
            i = np.arange(mu.size)
            eps = (((i * 7919 + 104729) % 1009).reshape(mu.shape) - 504.0) / 300.0
            zz = mu + eps * np.exp(lv / 2)
        o = np.tanh(zz @ p[4] + p[5]) @ p[6] + p[7]
        o = o - o.max(axis=1, keepdims=True)
        ls = o - np.log(np.exp(o).sum(axis=1, keepdims=True))
        kl = 0.5 * (-lv + np.exp(lv) + mu * mu - 1).sum(axis=1).mean()
        return ls, kl

    def loss(self, X, beta):
        ls, kl = self.forward(self.p, X, True)
        return -(ls * X).sum(axis=1).mean() + beta * kl

    def update(self, X, beta):
        import numpy as np

        self.t += 1
        gs = []
        h = 1e-5
        for x in self.p:
            g = np.zeros_like(x)
            xf, gf = x.reshape(-1), g.reshape(-1)
            for i in range(xf.size):
                o = xf[i]
                xf[i] = o + h
                a = self.loss(X, beta)
                xf[i] = o - h
                b = self.loss(X, beta)
                xf[i] = o
                gf[i] = (a - b) / (2 * h)
            gs.append(g)
        for i, g in enumerate(gs):
            self.m[i] = 0.9 * self.m[i] + 0.1 * g
            self.v[i] = 0.999 * self.v[i] + 0.001 * g * g
            self.p[i] = self.p[i] - self.lr * (self.m[i] / (1 - 0.9 ** self.t)) / (np.sqrt(self.v[i] / (1 - 0.999 ** self.t)) + 1e-8)

    def score(self, X):
        return self.forward(self.p, X, False)[0]


def users(nu, v):
    import numpy as np

    return np.asarray([[((u * 5 + i * 3 + v * (u + 1) * (i + 2)) % 4 > 1) * (1.0 + (u + i + v) % 3) for i in range(3)] for u in range(nu)])


def cases_vae(tier):
    def gen():
        n = 0
        for nu in range(1, 6 if tier == "quick" else 8):
            for mb in range(1, nu + 2):
                for an in (1, 2, 3):
                    for drop in (0.0, 0.5):
                        for dec in (None, 3):
                            n += 1
                            if tier == "quick" and n % 2 and mb not in (nu - 1, nu // 2):
                                continue
                            yield ["train", nu, mb, an, drop, dec, n]
        for nu in range(1, 5):
            for mb in (1, 2, 3, 5):
                yield ["keys", nu, mb]
        for mb in range(1, 7):
            for rows in range(1, 14):
                yield ["score", mb, rows]
        for c in range(1, 2 ** 6, 1 if tier == "thorough" else 5):
            yield ["hist", c]
        for opt in ("l2_regularizer", "kl_anneal_goal", "learning_rate", "dropout_p", "dim_z", "enc_hidden_dims", "dec_hidden_dims", "anneal_end_epoch", "minibatch_size", "train_epochs"):
            yield ["option", opt]
    return gen


KW = dict(dim_z=1, enc_hidden_dims=2, dropout_p=0.5, kl_anneal_goal=0.7, anneal_end_epoch=2, minibatch_size=2, learning_rate=0.05)


def run_vae(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders import MultVAERecommender
    from vf.fake_jax import MON

    MON.reset()
    np.random.seed(7)
    kind = case[0]
    if kind in ("train", "hist"):
        if kind == "train":
            _, nu, mb, an, drop, dec, v = case
            D = users(nu, v)
        else:
            nu, mb, an, drop, dec, v = 2, 1, 2, 0.5, None, case[1]
            D = mat(case[1], [2, 3], 2)
        X = fmt(D, v)
        kw = dict(KW, dropout_p=drop, anneal_end_epoch=an, minibatch_size=mb, dec_hidden_dims=dec)
        msg = f"Mult-VAE {kw} X={D.tolist()}"
        ref = Ref(3, 1, 2, dec, drop, 0.05)
        rec = MultVAERecommender(X, train_epochs=0, **kw)
        rec.start_learning()
        per = -(-nu // mb)
        probe = np.concatenate([D, np.asarray([[0.0, 0, 0], [1, 0, 0], [0, 2, 5]])])
        seen = 0
        for ep in range(3):
            rec.run_epoch()
            batches = MON.batches[seen:]
            rows = sorted(tuple(r) for b in batches for r in b)
            ctx.eq(rows, sorted(map(tuple, D)), f"{msg}: users trained on in epoch {ep + 1}")
            ctx.eq(sorted(map(len, batches)), sorted(min(mb, nu - s) for s in range(0, nu, mb)), f"{msg}: minibatch sizes in epoch {ep + 1}")
            for b in batches:
                ref.update(np.asarray(b, float), 0.7 * min(1.0, seen / (an * per)))
                seen += 1
            want = ref.score(probe)
            got = np.asarray(rec.get_score_cold_user(sps.csr_matrix(probe)), float)
            ctx.check(np.allclose(got, want, rtol=1e-5, atol=1e-6), lambda: f"{msg}: scores after epoch {ep + 1} are {np.round(got, 6).tolist()}, the documented objective gives {np.round(want, 6).tolist()}")
            g2 = np.asarray(rec.get_score(np.arange(nu)), float)
            ctx.check(np.allclose(g2, want[:nu], rtol=1e-5, atol=1e-6), lambda: f"{msg}: scores of known users after epoch {ep + 1}")
            ctx.outcome(tuple(np.round(got, 5).ravel()))
        ctx.check(np.array_equal(X.toarray(), D), f"{msg}: training data modified")
        return ctx.step(6)
    if kind == "keys":
        _, nu, mb = case
        D = users(nu, 1)
        X = sps.csr_matrix(D)

        def run(scoring, seed):
            MON.reset()
            MON.mode = "keyed"
            np.random.seed(seed)
            rec = MultVAERecommender(X, train_epochs=0, **dict(KW, minibatch_size=mb))
            rec.start_learning()
            for _ in range(2):
                rec.run_epoch()
                if scoring:
                    rec.get_score(np.arange(nu))
                    rec.get_score_cold_user(X[:1])
            ks = [list(k) for k in MON.keys]
            return np.asarray(rec.get_score(np.arange(nu)), float), ks

        a, ks = run(False, 1)
        for i, k in enumerate(ks):
            ctx.check(len(k) >= 2, f"update {i} draws {len(k)} times (dropout and latent noise)")
        flat = [k for u in ks for k in u]
        ctx.eq(len(flat), len(set(flat)), f"{case}: random keys are reused")
        b, _ = run(False, 2)
        ctx.check(np.allclose(a, b, rtol=1e-9, atol=1e-12), lambda: f"{case}: training twice gives {a.tolist()} and {b.tolist()}")
        c, _ = run(True, 3)
        ctx.check(np.allclose(a, c, rtol=1e-9, atol=1e-12), lambda: f"{case}: scoring between epochs changes the training: {a.tolist()} vs {c.tolist()}")
        MON.reset()
        return ctx.step(3)
    if kind == "score":
        _, mb, rows = case
        rec = MultVAERecommender(sps.csr_matrix(users(3, 2)), train_epochs=1, **dict(KW, minibatch_size=mb)).learn()
        H = users(rows, 5)
        S = np.asarray(rec.get_score_cold_user(sps.csr_matrix(H)), float)
        ctx.eq(S.shape, (rows, 3), "shape of the scores")
        ctx.check(np.allclose(np.exp(S).sum(axis=1), 1, atol=1e-6), "scores are not log-probabilities")
        for r in range(rows):
            one = np.asarray(rec.get_score_cold_user(sps.csr_matrix(H[r:r + 1])), float)[0]
            ctx.check(np.allclose(S[r], one, rtol=1e-6, atol=1e-7), lambda: f"minibatch {mb}, {rows} histories: row {r} scored {S[r].tolist()}, alone {one.tolist()}")
        return ctx.step(rows)
    # every option reaches the training
    opt = case[1]
    alt = dict(l2_regularizer=0.8, kl_anneal_goal=0.1, learning_rate=0.2, dropout_p=0.1, dim_z=2, enc_hidden_dims=3, dec_hidden_dims=3, anneal_end_epoch=5, minibatch_size=3, train_epochs=1)
    X = sps.csr_matrix(users(3, 2))

    def learn(**over):
        MON.reset()
        np.random.seed(3)
        return np.asarray(MultVAERecommender(X, **{**KW, "train_epochs": 2, **over}).learn().get_score(np.arange(3)), float)

    a, b = learn(), learn(**{opt: alt[opt]})
    ctx.check(not np.allclose(a, b, rtol=1e-7, atol=1e-9), f"Mult-VAE: the documented option {opt} has no effect on training", key="l2" if opt == "l2_regularizer" else None)
    ctx.step(2)


def families(tier):
    return {"progress": (progress.cases(("bpr", "vae"), tier), progress.run), "linear": (cases_lin(tier), run_lin), "lightfm": (cases_fm(tier), run_fm), "autoencoder": (cases_vae(tier), run_vae)}
