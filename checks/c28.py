"""C28: sparse-matrix utilities and the thread-count rule."""
import itertools
import math

from checks.c21 import mat
from vf import knnref as K
from vf.scale import LARGE, MEDIUM, SMALL

LEVEL = "model_checking"
RULE = (
    "Every small matrix over a value alphabet (several storage formats, index orders and number types) goes through TF-IDF, BM25, row normalization and diagonal "
    "removal with a grid of parameters and is compared with the definitions evaluated in plain Python; threaded products of every pair of small matrices and of "
    "every row count around the work-chunk size are compared with the dense product for every thread count; every environment value is tried for the thread rule."
)
ASSUMPTIONS = ["Matrices are canonical (no duplicate entries)."]
BOUNDS = {"quick": "all 3^6 matrices of 2x3, 3x2 and 2^9 of 3x3 x parameters x 5 formats; products: all 2^6 x 2^6 pairs, rows 0..50 x threads 1..6; 25 environment values; 28 matrix sizes 31..100001",
          "thorough": "all 3^9 3x3 matrices; rows 0..200 x threads 1..12"}


def setup():
    from vf.load import install

    install()
    import irspack.utils  # noqa


def formats(D):
    import numpy as np
    import scipy.sparse as sps

    X = sps.csr_matrix(D)
    yield "csr", X
    yield "csc", X.tocsc()
    if (D == np.round(D)).all():
        yield "int", X.astype(np.int64)
    yield "f32", X.astype(np.float32)
    Y = sps.csr_matrix(D)
    for r in range(D.shape[0]):
        s = slice(Y.indptr[r], Y.indptr[r + 1])
        Y.indices[s] = Y.indices[s][::-1].copy()
        Y.data[s] = Y.data[s][::-1].copy()
    Y.has_sorted_indices = False
    yield "unsorted", Y


def matrices(tier):
    def gen():
        for c in range(3 ** 6):
            yield ["m", [2, 3], 3, c]
            yield ["m", [3, 2], 3, c]
        for c in range(2 ** 9):
            yield ["m", [3, 3], 2, c]
        if tier == "thorough":
            for c in range(3 ** 9):
                yield ["m", [3, 3], 3, c]
        for shape in ([0, 3], [3, 0], [0, 0], [1, 1], [1, 4], [4, 1], [5, 5]):
            for c in (0, 1, 7, 1000003):
                yield ["m", shape, 3, c]
    return gen


def same(ctx, R, E, msg):
    import numpy as np
    import scipy.sparse as sps

    ctx.check(sps.issparse(R), f"{msg}: not sparse")
    A = R.toarray()
    ctx.eq(A.shape, E.shape, f"{msg}: shape")
    ctx.check(np.allclose(A, E, rtol=1e-9, atol=1e-12), lambda: f"{msg}: got\n{A}\nexpected\n{E}")


def run_m(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import l1_normalize_row, okapi_BM_25_weight, remove_diagonal, tf_idf_weight

    _, shape, base, c = case
    D = mat(c, shape, base) * (1.0 if c % 2 else 1.5)
    n = 0
    for fmt, X in formats(D):
        msg = f"{fmt} X={D.tolist()}"
        pre = X.dtype
        for smooth in (None, True, False):
            R = tf_idf_weight(X) if smooth is None else tf_idf_weight(X, smooth)
            same(ctx, R, K.tfidf(D, smooth is not False), f"tf-idf smooth={smooth} {msg}")
            ctx.eq(sorted(zip(*R.tocoo().coords)) if hasattr(R.tocoo(), "coords") else sorted(zip(R.tocoo().row, R.tocoo().col)), sorted(zip(*np.nonzero(D))), f"tf-idf structure {msg}")
        for k1, b in ((None, None), (1.2, 0.75), (0.5, 0.0), (2.0, 1.0), (0.0, 0.5)):
            R = okapi_BM_25_weight(X) if k1 is None else okapi_BM_25_weight(X, k1, b)
            same(ctx, R, K.bm25(D, 1.2 if k1 is None else k1, 0.75 if b is None else b), f"bm25 k1={k1} b={b} {msg}")
        if shape[0] == shape[1]:
            E = D.copy()
            np.fill_diagonal(E, 0)
            same(ctx, remove_diagonal(X), E, f"remove_diagonal {msg}")
            if D.any():
                same(ctx, remove_diagonal(-1 * X), -E, f"remove_diagonal negative {msg}")
        else:
            ctx.raises(ValueError, lambda: remove_diagonal(X), f"remove_diagonal non-square {msg}")
        if fmt in ("csc", "csr"):
            Y = X.tocsc()
            keep = Y.copy()
            s = D.sum(axis=1)
            E = np.asarray([[v / t if t else 0.0 for v in r] for r, t in zip(D, s)]).reshape(D.shape)
            same(ctx, l1_normalize_row(Y), E, f"l1_normalize_row {msg}")
            ctx.check(np.array_equal(Y.toarray(), keep.toarray()) and Y.dtype == keep.dtype, "l1_normalize_row modified its input")
            Z = Y.astype(np.int64) if (D == np.round(D)).all() else Y
            same(ctx, l1_normalize_row(Z), E, f"l1_normalize_row int {msg}")
        # (index order within a row may be sorted in place by the binding layer)
        ctx.check(np.array_equal(X.toarray(), D) and X.dtype == pre, f"{msg}: input modified")
        n += 12
    ctx.outcome(tuple(D.ravel()))
    ctx.step(n)


def products(tier):
    def gen():
        for a in range(2 ** 6):
            yield ["p", a]
        for rows in range(0, 201 if tier == "thorough" else 51):
            yield ["r", rows]
        for e in range(len(ENV)):
            yield ["env", e]
        yield ["reject"]
    return gen


ENV = [None, "1", "2", "7", "16", " 3 ", "x", "1.5", "two", "3x", "0x4", "1e3", "nan", "-", "+5", "None"]


def run_p(ctx, case):
    import os

    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import sparse_mm_threaded

    if case[0] == "p":
        A = mat(case[1], [2, 3], 2) * 2
        for b in range(2 ** 6):
            B = mat(b, [3, 2], 2) - 0.5 * mat(b, [3, 2], 2)[::-1]
            for th in (1, 2, 3):
                R = sparse_mm_threaded(sps.csr_matrix(A), sps.csc_matrix(B), th)
                ctx.check(np.allclose(R, A @ B) and R.shape == (2, 2), lambda: f"{A.tolist()} x {B.tolist()} threads={th}: {R}")
        return ctx.step(192)
    if case[0] == "r":
        rows = case[1]
        A = np.asarray([[(r * 5 + c * 3) % 4 for c in range(4)] for r in range(rows)], float).reshape(rows, 4)
        B = np.asarray([[(r + 2 * c) % 3 - 1 for c in range(5)] for r in range(4)], float)
        for th in (1, 2, 3, 4, 6) + ((12,) if rows > 60 else ()):
            for L, M_ in ((sps.csr_matrix(A), sps.csc_matrix(B)), (sps.csc_matrix(A), sps.csr_matrix(B))):
                R = sparse_mm_threaded(L, M_, th)
                ctx.check(R.shape == (rows, 5) and np.array_equal(R, A @ B), lambda: f"rows={rows} threads={th}: wrong product")
                ctx.check(np.array_equal(L.toarray(), A) and np.array_equal(M_.toarray(), B), "product modified an input")
        return ctx.step(10)
    if case[0] == "env":
        from irspack._threading import get_n_threads

        v = ENV[case[1]]
        old = os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        try:
            if v is not None:
                os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = v
            for explicit in (1, 2, 5, 0, 64):
                ctx.eq(get_n_threads(explicit), explicit, f"explicit {explicit} env {v!r}")
            if v is None:
                ctx.eq(get_n_threads(None), os.cpu_count(), "cpu count")
            else:
                try:
                    want = int(v)
                except ValueError:
                    want = None
                if want is None:
                    ctx.raises(ValueError, lambda: get_n_threads(None), f"env {v!r}")
                else:
                    ctx.eq(get_n_threads(None), want, f"env {v!r}")
            # the rule is what models and evaluators use
            from irspack.evaluation import Evaluator
            from irspack.recommenders import CosineKNNRecommender, P3alphaRecommender, SLIMRecommender

            X = sps.csr_matrix(np.asarray([[1.0, 0, 1], [0, 1, 1]]))
            for cls in (CosineKNNRecommender, P3alphaRecommender, SLIMRecommender):
                if v is not None and want is None:
                    ctx.raises(ValueError, lambda: cls(X), f"{cls.__name__} env {v!r}")
                    ctx.raises(ValueError, lambda: Evaluator(X), f"Evaluator env {v!r}")
                else:
                    ctx.eq(cls(X).n_threads, os.cpu_count() if v is None else want, f"{cls.__name__} env {v!r}")
                    ctx.eq(Evaluator(X).n_threads, os.cpu_count() if v is None else want, f"Evaluator env {v!r}")
                ctx.eq(cls(X, n_threads=3).n_threads, 3, "explicit thread count")
                # zero threads is a request that cannot be met, not a missing one
                ctx.raises(ValueError, lambda: cls(X, n_threads=0).learn(), f"{cls.__name__} with 0 threads, env {v!r}")
        finally:
            os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
            if old is not None:
                os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = old
        return ctx.step(10)
    A, B = sps.csr_matrix(np.ones((3, 2))), sps.csc_matrix(np.ones((3, 2)))
    ctx.raises(ValueError, lambda: sparse_mm_threaded(A, B.T.tocsc(), 0), "0 threads")
    ctx.raises((ValueError, RuntimeError), lambda: sparse_mm_threaded(A, B, 1), "shape mismatch")
    ctx.raises((ValueError, RuntimeError), lambda: sparse_mm_threaded(A, B, 3), "shape mismatch, threads")
    ctx.step(3)


def size_cases(tier):
    def gen():
        for n in SMALL + MEDIUM + LARGE:
            for what in ("product", "inner", "tall", "wide", "diagonal"):
                yield [what, n]
    return gen


def run_size(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import l1_normalize_row, okapi_BM_25_weight, remove_diagonal, sparse_mm_threaded, tf_idf_weight

    what, n = case
    k = np.arange(n)
    A = sps.csr_matrix(np.stack([k % 5 - 2.0, (k % 7 == 3) * 1.5, (k == n - 1) * 4.0], axis=1))
    if what == "product":
        B = np.asarray([[1.0, -2.0], [0.5, 0.0], [3.0, 1.0]])
        for th in (1, 3):
            R = sparse_mm_threaded(A, sps.csc_matrix(B), th)
            ctx.check(np.array_equal(R, A.toarray() @ B), f"{n} rows, {th} threads")
    elif what == "inner":
        for th in (1, 3):
            R = sparse_mm_threaded(A.T.tocsr(), A.tocsc(), th)
            ctx.check(np.array_equal(R, A.toarray().T @ A.toarray()), f"product over {n}, {th} threads")
        if n <= 4097:
            R = sparse_mm_threaded(A[:3], A.T.tocsc(), 2)
            ctx.check(np.array_equal(R, A[:3].toarray() @ A.toarray().T), f"product with {n} columns")
    elif what == "diagonal":
        i = np.concatenate([k, k])
        j = np.concatenate([k, (k * 7 + 1) % n])
        X = sps.coo_matrix((np.arange(1.0, 2 * n + 1), (i, j)), shape=(n, n)).tocsr()
        R = remove_diagonal(X).tocsr()
        E = X - sps.diags(X.diagonal())
        ctx.check(R.shape == (n, n) and abs(R - E).max() == 0, f"remove_diagonal of {n} x {n}")
    else:
        D = abs(A) if what == "tall" else abs(A).T.tocsr()
        D.eliminate_zeros()
        N = D.shape[0]
        df = np.asarray((D != 0).sum(axis=0)).ravel()
        L = np.asarray(D.sum(axis=1)).ravel()
        C = D.tocoo()
        for smooth in (True, False):
            R = tf_idf_weight(D, smooth).tocsr()
            E = sps.csr_matrix((C.data * np.log(N / (df[C.col] + smooth)), (C.row, C.col)), shape=D.shape)
            ctx.check(R.shape == D.shape and abs(R - E).max() < 1e-9, f"tf-idf smooth={smooth} of {D.shape}")
        reg = 1.2 * (1 - 0.75 + 0.75 * L / L.mean())
        E = sps.csr_matrix((np.log(N / (df[C.col] + 1) + 1) * C.data * 2.2 / (C.data + reg[C.row]), (C.row, C.col)), shape=D.shape)
        R = okapi_BM_25_weight(D, 1.2, 0.75).tocsr()
        ctx.check(R.shape == D.shape and abs(R - E).max() < 1e-9, f"bm25 of {D.shape}")
        E = sps.diags(1.0 / np.where(L > 0, L, 1)) @ D
        R = l1_normalize_row(D.tocsc()).tocsr()
        ctx.check(R.shape == D.shape and abs(R - E).max() < 1e-9, f"l1_normalize_row of {D.shape}")
    ctx.step()
    ctx.outcome(case)


def families(tier):
    return {"matrices": (matrices(tier), run_m), "products": (products(tier), run_p), "sizes": (size_cases(tier), run_size)}
