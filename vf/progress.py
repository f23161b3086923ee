"""A model that is scored, trained further and fitted again: what it answers always follows from its present state.

Each case is a sequence of operations on one recommender (score every route, one more epoch, fit again, change the
caller's own history and feature arrays); after every scoring the answers are compared with a fresh recommender
that was trained equally long and never scored before."""
import itertools

KINDS = ("CG", "CHOLESKY", "IALSPP", "CG+feat", "CHOLESKY+feat", "CG+log", "bpr", "vae")
OPS = ("score", "epoch", "fit", "change")


def cases(kinds, tier, length=3):
    def gen():
        for kind in kinds:
            for ops in itertools.product(OPS, repeat=length + (tier == "thorough")):
                if "score" in ops:
                    yield [kind, ops]
    return gen


def run(ctx, case):
    import warnings

    import numpy as np
    import scipy.sparse as sps

    warnings.simplefilter("ignore")
    kind, ops = case
    rng = np.random.RandomState(5)
    X = sps.csr_matrix((rng.rand(5, 4) < 0.6) * rng.randint(1, 4, size=(5, 4)).astype(float))
    UF, IF = rng.randn(5, 2), rng.randn(4, 3)

    def make():
        if kind == "bpr":
            from irspack.recommenders import BPRFMRecommender

            return BPRFMRecommender(X, n_components=2, n_threads=1, train_epochs=2)
        if kind == "vae":
            from irspack.recommenders import MultVAERecommender
            from vf.fake_jax import MON

            MON.mode = "keyed"
            return MultVAERecommender(X, dim_z=2, enc_hidden_dims=3, minibatch_size=3, learning_rate=0.02, train_epochs=2)
        from irspack.recommenders import IALSRecommender

        kw = dict(n_components=2, n_threads=1, alpha0=0.2, solver_type=kind.split("+")[0], train_epochs=2)
        if "feat" in kind:
            kw.update(user_features=UF.copy(), item_features=sps.csr_matrix(IF), lambda_user_feature=0.3, lambda_item_feature=0.2)
        if "log" in kind:
            kw.update(confidence_scaling="log", epsilon=0.5)
        return IALSRecommender(X, **kw)

    hist = sps.csr_matrix(np.asarray([[1.0, 0, 2, 0], [0, 1, 1, 0]]))
    items = sps.csr_matrix(np.asarray([[1.0, 0], [0, 1], [1, 1], [0, 0], [2, 0]]))
    uf, itf = np.asarray([[1.0, -1.0], [0.5, 2.0]]), np.asarray([[1.0, 0.0, -1.0], [0.0, 2.0, 0.5]])
    idx = np.arange(5)

    def views(r):
        d = dict(score=r.get_score(idx), seen=r.get_score_remove_seen(idx), few=r.get_score(np.array([3, 1])))
        if kind != "vae":
            d.update(user=r.get_user_embedding(), item=r.get_item_embedding(), block=r.get_score_block(0, 5))
        if kind != "bpr":
            d.update(cold=r.get_score_cold_user(hist), cold_seen=r.get_score_cold_user_remove_seen(hist))
        if kind not in ("bpr", "vae"):
            d.update(fold=r.compute_user_embedding(hist), fold_item=r.compute_item_embedding(items))
        if "feat" in kind:
            d.update(ufold=r.compute_user_embedding(hist, user_features=uf), ucold=r.compute_user_embedding_from_features(uf), uscore=r.get_score_cold_user_from_features(uf),
                     icold=r.compute_item_embedding_from_features(itf), iscore=r.get_score_from_item_features(idx, itf), both=r.get_score_cold_user_with_item_features(hist, itf))
        return {k: np.array(v) for k, v in d.items()}

    rec = make().learn()
    epochs = 2
    for k, op in enumerate(list(ops) + ["score"]):
        if op == "epoch":
            rec.run_epoch()
            epochs += 1
        elif op == "fit":
            rec.learn()
            epochs = 2
        elif op == "change":  # the caller's arrays get other values in place
            hist.data[:] = hist.data[::-1].copy() + 1
            items.data[:] = items.data * 2
            uf[:] = uf[::-1].copy() - 0.5
            itf[:] = itf * -0.5 + 0.25
        else:
            ref = make().learn()
            for _ in range(epochs - 2):
                ref.run_epoch()
            a, b = views(rec), views(ref)
            for n in b:
                ctx.check(a[n].shape == b[n].shape and np.allclose(a[n], b[n], rtol=1e-5, atol=1e-6),
                          lambda: f"{kind}: {n} after {list(ops)[:k]} ({epochs} epochs)\n{a[n]}\na fresh model gives\n{b[n]}")
            if "block" in a:
                ctx.check(np.allclose(a["block"], a["score"], rtol=1e-4, atol=1e-5), lambda: f"{kind}: scores by block and by index differ after {list(ops)[:k]}")
            ctx.step()
    ctx.outcome(case)
