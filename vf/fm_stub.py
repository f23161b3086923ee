"""A deterministic stand-in for the lightfm package (not installed here): the
calls and attributes irspack's wrapper uses, with an embedding update that
depends on the whole training history."""
import sys
import types

import numpy as np


class LightFM:
    def __init__(self, no_components=10, item_alpha=0.0, user_alpha=0.0, loss="logistic", **kw):
        self.no_components, self.item_alpha, self.user_alpha, self.loss = no_components, item_alpha, user_alpha, loss
        self.user_embeddings = None

    def fit_partial(self, X, num_threads=1, **kw):
        X = X.tocsr()
        nu, ni = X.shape
        k = self.no_components
        if self.user_embeddings is None:
            r = np.random.RandomState(5)
            self.user_embeddings = (r.rand(nu, k) - 0.5).astype(np.float32)
            self.item_embeddings = (r.rand(ni, k) - 0.5).astype(np.float32)
            self.user_biases = np.zeros(nu, np.float32)
            self.item_biases = np.zeros(ni, np.float32)
        B = (X > 0).astype(np.float32)
        U, I = self.user_embeddings, self.item_embeddings
        self.user_embeddings = np.tanh(U + 0.3 * (B @ I) - self.user_alpha * U).astype(np.float32)
        self.item_embeddings = np.tanh(I + 0.2 * (B.T @ U) - self.item_alpha * I).astype(np.float32)
        self.item_biases = (self.item_biases + 0.1 * np.asarray(B.sum(axis=0)).ravel()).astype(np.float32)
        self.user_biases = (self.user_biases + 0.05 * np.asarray(B.sum(axis=1)).ravel()).astype(np.float32)
        return self

    fit = fit_partial

    def get_user_representations(self, features=None):
        return self.user_biases, self.user_embeddings

    def get_item_representations(self, features=None):
        return self.item_biases, self.item_embeddings

    def get_params(self, deep=True):
        return {"loss": self.loss, "no_components": self.no_components, "item_alpha": self.item_alpha, "user_alpha": self.user_alpha}


def install():
    try:
        import lightfm  # noqa
    except ImportError:
        m = types.ModuleType("lightfm")
        m.LightFM = LightFM
        sys.modules["lightfm"] = m
