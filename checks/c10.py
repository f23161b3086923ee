"""C10: row-wise train/test split of every small matrix."""
import itertools
import math

from vf.scale import LARGE, MEDIUM, SMALL

LEVEL = "model_checking"
RULE = (
    "Every sparsity pattern of matrices up to the bound, with value schemes that tell all entries apart (integral, fractional, tiny, huge, negative), "
    "every storage format and dtype, every ratio of a grid, rounding mode, fixed count and several random states are split by the real code and "
    "compared entry by entry with the partition model."
)
ASSUMPTIONS = ["Stored entries are unique per position (canonical sparse matrices)."]
BOUNDS = {"quick": "all patterns up to 2x4 and 3x2, all 2x3 patterns of absent/zero/non-zero entries, every ratio k/100 (and k/7, k/64) for every row length up to 128, 3 seeds; rows, columns and single rows of 28 sizes 31..100001 around type and buffer limits", "thorough": "all patterns up to 3x4, 101 ratios, 6 seeds"}
RATIOS = [0.0, 0.1, 0.25, 1 / 3, 0.5, 0.7, 0.9, 1.0]
SCHEMES = {
    "int": lambda i, j: 1 + i * 7 + j,
    "frac": lambda i, j: 0.5 + i * 0.37 + j * 0.113,
    "tiny": lambda i, j: 1e-9 * (1 + i * 5 + j),
    "huge": lambda i, j: 1e12 + 0.25 * (i * 5 + j),
    "neg": lambda i, j: -(0.25 + i * 3 + j),
}


def setup():
    from vf.load import install

    install()
    import irspack.utils  # noqa


def mat(shape, bits, scheme, fmt, dtype, shuffled=False):
    import numpy as np
    import scipy.sparse as sps

    r, c = shape
    A = np.zeros(shape)
    for k in range(r * c):
        if bits >> k & 1:
            A[k // c, k % c] = SCHEMES[scheme](k // c, k % c)
    A = A.astype(dtype)
    X = sps.csr_matrix(A) if fmt == "csr" else sps.csc_matrix(A)
    if shuffled:
        for i in range(len(X.indptr) - 1):
            a, b = X.indptr[i], X.indptr[i + 1]
            X.indices[a:b] = X.indices[a:b][::-1].copy()
            X.data[a:b] = X.data[a:b][::-1].copy()
        X.has_sorted_indices = False
    return X, A


def cases(tier):
    def gen():
        big = tier == "thorough"
        shapes = [(1, 1), (1, 4), (2, 4), (3, 2), (4, 1)] + ([(3, 4)] if big else [])
        for sh in shapes:
            for bits in range(2 ** (sh[0] * sh[1])):
                for scheme in SCHEMES:
                    yield ["all", sh, bits, scheme, "csr", "float64", False]
                if sh in ((2, 4), (3, 2)):
                    for fmt, dt, shuf in itertools.product(("csr", "csc"), ("float64", "float32", "int64", "int32"), (False, True)):
                        yield ["all", sh, bits, "int" if "int" in dt else "frac", fmt, dt, shuf]
                    yield ["all", sh, bits, "int", "csr", "bool", False]
        for n in range(0, 13):
            for q in range(0, 101, 1 if big else 4):
                yield ["count", n, q]
        for n in (33, 64, 65, 100, 257, 1000):
            yield ["wide", n]
        for n in SMALL + MEDIUM + LARGE:
            yield ["sizes", n]
        for bits in itertools.product(range(3), repeat=6):
            yield ["zeros", bits]
        for den in (100, 7, 64) + ((1000,) if big else ()):
            for k in range(den + 1):
                yield ["length", k, den]
        for bad in (-0.1, -1e-9, 1.0000001, 1.5, 2.0, float("nan")):
            yield ["bad", bad]
        for sh in ((0, 3), (3, 0), (2, 3)):
            yield ["empty", sh]
    return gen


def check_split(ctx, X, A, kw, seeds, msg):
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import rowwise_train_test_split

    keep = (X.data.copy(), X.indices.copy(), X.indptr.copy())
    for seed in seeds:
        outs = []
        for rs in (seed, seed, np.random.RandomState(seed)):
            tr, te = rowwise_train_test_split(X, random_state=rs, **kw)
            ctx.step()
            ctx.check(sps.issparse(tr) and sps.issparse(te), "not sparse")
            outs.append((tr.toarray(), te.toarray(), tr.nnz, te.nnz))
            ctx.check(tr.shape == X.shape and te.shape == X.shape, f"{msg}: shape {tr.shape}/{te.shape} of {X.shape}")
            ctx.check(tr.dtype == X.dtype and te.dtype == X.dtype, f"{msg}: dtype {tr.dtype}")
        for a, b, *_ in outs[1:]:
            ctx.check(np.array_equal(a, outs[0][0]) and np.array_equal(b, outs[0][1]), f"{msg}: the same random state gives different splits ({kw}, {seed})")
        a, b, na, nb = outs[0]
        ctx.check(np.array_equal(a, np.where(b != 0, 0, A)) and np.array_equal(b[b != 0], A[b != 0]),
                  lambda: f"{msg}: {kw} seed {seed}: parts {a.tolist()} + {b.tolist()} do not partition {A.tolist()}")
        ctx.check(na + nb == np.count_nonzero(A) and na == np.count_nonzero(a), f"{msg}: stored entries {na}+{nb}")
        cnt = (A != 0).sum(axis=1)
        got = (b != 0).sum(axis=1).tolist()
        if kw.get("n_test") is not None:
            want = [min(int(n), kw["n_test"]) for n in cnt]
        else:
            q = kw.get("test_ratio", 0.5)
            want = [(math.ceil if kw.get("ceil_n_heldout") else math.floor)(int(n) * q) for n in cnt]
        ctx.check(got == want, lambda: f"{msg}: held out {got} per row, expected {want} ({kw}, counts {cnt.tolist()})")
        ctx.outcome(b.tolist() if b.size < 100 else float((b * b).sum()))
    ctx.check(np.array_equal(keep[0], X.data) and np.array_equal(keep[1], X.indices) and np.array_equal(keep[2], X.indptr), f"{msg}: the input was modified")


def run(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.utils import rowwise_train_test_split

    if case[0] == "all":
        _, sh, bits, scheme, fmt, dt, shuf = case
        X, A = mat(tuple(sh), bits, scheme, fmt, dt, shuf)
        full = dt == "float64" and fmt == "csr" and scheme in ("frac", "int") and not shuf
        for q in RATIOS if full else (0.25, 0.5, 1.0):
            for ceil in (False, True):
                check_split(ctx, X, A, dict(test_ratio=q, ceil_n_heldout=ceil), (0, 1) if full else (3,), f"{case}")
        for n in range(sh[1] + 2) if full else (1, 2):
            check_split(ctx, X, A, dict(n_test=n), (0,), f"{case}")
        if full:
            check_split(ctx, X, A, dict(), (5,), f"{case}")
            check_split(ctx, X, A, dict(n_test=1, test_ratio=0.9, ceil_n_heldout=True), (5,), f"{case}")
    elif case[0] == "count":
        _, n, q = case
        A = np.zeros((2, 12))
        A[0, :n] = np.arange(1, n + 1) / 4
        A[1, : 12 - n] = np.arange(1, 13 - n) / 8
        X = sps.csr_matrix(A)
        for ceil in (False, True):
            check_split(ctx, X, A, dict(test_ratio=q / 100, ceil_n_heldout=ceil), (0,), f"{case}")
        if q == 0:
            for k in range(15):
                check_split(ctx, X, A, dict(n_test=k), (0,), f"{case}")
    elif case[0] == "sizes":
        n = case[1]
        r, c, v = [], [], []
        for k in {0, 1, n // 2, n - 2, n - 1, n // 3, n // 5, n - 3}:
            r += [0, 2]
            c += [k, n - 1 - k // 2]
            v += [k + 0.5, -k - 1.0]
        X = sps.coo_matrix((v, (r, c)), shape=(3, n)).tocsr()
        for kw in (dict(test_ratio=0.5), dict(test_ratio=0.3, ceil_n_heldout=True), dict(n_test=3), dict(n_test=n)):
            check_split(ctx, X, X.toarray(), kw, (0,), f"{case}")
        Y = sps.csr_matrix(np.stack([np.arange(n) + 1.0, np.arange(n) % 2, np.arange(n) % 3 * 0.5], axis=1))
        for kw in (dict(test_ratio=0.5), dict(n_test=2)):
            check_split(ctx, Y, Y.toarray(), kw, (0,), f"{case} rows")
        Z = sps.csr_matrix(np.arange(1, n + 1)[None] / 2.0)
        for kw in (dict(test_ratio=0.75), dict(n_test=n - 1)):
            check_split(ctx, Z, Z.toarray(), kw, (0,), f"{case} one full row")
    elif case[0] == "wide":
        n = case[1]
        A = np.zeros((3, n))
        A[0] = np.arange(1, n + 1) / 8
        A[2, ::2] = np.arange(1, n + 1)[::2] / 8
        X = sps.csr_matrix(A)
        for q in RATIOS:
            for ceil in (False, True):
                check_split(ctx, X, A, dict(test_ratio=q, ceil_n_heldout=ceil), (0,), f"{case}")
        for k in (0, 1, n // 2, n - 1, n, n + 5):
            check_split(ctx, X, A, dict(n_test=k), (0,), f"{case}")
    elif case[0] == "zeros":
        pos = [(k // 3, k % 3, [None, 0.0, k + 1.5][b]) for k, b in enumerate(case[1]) if b]
        X = sps.csr_matrix(([v for *_, v in pos], ([i for i, *_ in pos], [j for _, j, _ in pos])), shape=(2, 3))
        for kw in [dict(test_ratio=q, ceil_n_heldout=c) for q in (0.0, 0.4, 0.5, 1.0) for c in (False, True)] + [dict(n_test=k) for k in range(4)]:
            tr, te = rowwise_train_test_split(X, random_state=1, **kw)
            ctx.step()
            ts, es = ([(int(i), int(j), float(v)) for i, j, v in zip(*(lambda c: (c.row, c.col, c.data))(M.tocoo()))] for M in (tr, te))
            ctx.check(sorted(ts + es) == sorted(pos), lambda: f"{kw}: {sorted(ts)} and {sorted(es)} do not partition the stored entries {pos}")
            for r in range(2):
                n = sum(i == r for i, *_ in pos)
                want = min(n, kw["n_test"]) if "n_test" in kw else (math.ceil if kw["ceil_n_heldout"] else math.floor)(n * kw["test_ratio"])
                ctx.eq(sum(i == r for i, *_ in es), want, f"{kw}: entries of row {r} held out of {pos}")
        ctx.outcome(case)
    elif case[0] == "length":
        _, k, den = case
        N = 128
        A = np.tril(np.ones((N + 1, N + 1)), -1)[:, :N] * (np.arange(N) + 1)
        X = sps.csr_matrix(A)
        for ceil in (False, True):
            check_split(ctx, X, A, dict(test_ratio=k / den, ceil_n_heldout=ceil), (0,), f"{case}")
    elif case[0] == "bad":
        X, _ = mat((2, 3), 21, "int", "csr", "float64")
        for ceil in (False, True):
            ctx.raises(Exception, lambda: rowwise_train_test_split(X, test_ratio=case[1], ceil_n_heldout=ceil), f"ratio {case[1]}")
            ctx.step()
    else:
        sh = tuple(case[1])
        X = sps.csr_matrix(sh)
        check_split(ctx, X, np.zeros(sh), dict(test_ratio=0.5), (0,), f"{case}")
        check_split(ctx, X, np.zeros(sh), dict(n_test=2), (0,), f"{case}")


def families(tier):
    return {"split": (cases(tier), run)}
