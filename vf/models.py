"""Every recommender class that can be imported here, with small settings."""


def setup():
    from vf import fake_jax, fm_stub
    from vf.load import install

    install()
    fm_stub.install()
    fake_jax.install()
    import irspack.recommenders  # noqa
    import gc

    gc.collect()
    gc.freeze()


# name -> (class name, keyword arguments, tolerance)
SPEC = {
    "toppop": ("TopPopRecommender", {}, 1e-12),
    "cosine": ("CosineKNNRecommender", dict(top_k=2, n_threads=1), 1e-9),
    "cosine-bm25": ("CosineKNNRecommender", dict(top_k=3, normalize=True, feature_weighting="BM_25", n_threads=2), 1e-9),
    "asym": ("AsymmetricCosineKNNRecommender", dict(alpha=0.3, n_threads=1), 1e-9),
    "jaccard": ("JaccardKNNRecommender", dict(n_threads=1), 1e-9),
    "tversky": ("TverskyIndexKNNRecommender", dict(n_threads=1), 1e-9),
    "user-cosine": ("CosineUserKNNRecommender", dict(n_threads=1), 1e-9),
    "user-asym": ("AsymmetricCosineUserKNNRecommender", dict(alpha=0.4, top_k=2, n_threads=1), 1e-9),
    "p3": ("P3alphaRecommender", dict(n_threads=1), 1e-9),
    "p3-norm": ("P3alphaRecommender", dict(n_threads=1, top_k=2, normalize_weight=True), 1e-9),
    "rp3": ("RP3betaRecommender", dict(n_threads=1), 1e-9),
    "ease": ("DenseSLIMRecommender", dict(reg=1.0), 1e-4),
    "edlae": ("EDLAERecommender", dict(reg=1.0), 1e-4),
    "slim": ("SLIMRecommender", dict(n_threads=1), 1e-5),
    "slim-neg": ("SLIMRecommender", dict(n_threads=2, positive_only=False, top_k=2), 1e-5),
    "ials": ("IALSRecommender", dict(n_components=2, train_epochs=2, n_threads=1, alpha0=0.1, reg=0.1), 1e-4),
    "svd": ("TruncatedSVDRecommender", dict(n_components=2), 1e-5),
    "nmf": ("NMFRecommender", dict(n_components=2), 1e-5),
    "bprfm": ("BPRFMRecommender", dict(n_components=2, train_epochs=2, n_threads=1), 1e-5),
    "multvae": ("MultVAERecommender", dict(dim_z=1, enc_hidden_dims=2, minibatch_size=2, train_epochs=2, learning_rate=0.05), 1e-5),
}
# scores are a function of the user's history alone
FROM_HISTORY = {"toppop", "cosine", "cosine-bm25", "asym", "jaccard", "tversky", "p3", "p3-norm", "rp3", "ease", "edlae", "slim", "slim-neg", "svd", "multvae"}
HAS_BLOCK = set(SPEC) - {"toppop", "nmf", "multvae"}
HAS_COLD = set(SPEC) - {"user-cosine", "user-asym", "bprfm"}
NEEDS_DATA = {"svd", "nmf"}  # the underlying library wants a non-trivial matrix


def cls(name):
    import irspack.recommenders as R

    return getattr(R, SPEC[name][0])


def make(name, X, **over):
    return cls(name)(X, **{**SPEC[name][1], **over})
