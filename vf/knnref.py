"""Reference neighbourhood similarities and the top-k rule."""
import math


def tfidf(X, smooth=True):
    import numpy as np

    X = np.asarray(X, float)
    n = X.shape[0]
    out = np.zeros_like(X)
    for i in range(X.shape[1]):
        df = sum(1 for u in range(n) if X[u, i])
        for u in range(n):
            if X[u, i]:
                out[u, i] = X[u, i] * math.log(n / (df + (1 if smooth else 0)))
    return out


def bm25(X, k1=1.2, b=0.75):
    import numpy as np

    X = np.asarray(X, float)
    n = X.shape[0]
    out = np.zeros_like(X)
    if not n:
        return out
    dl = [sum(X[u]) for u in range(n)]
    avg = sum(dl) / n
    for i in range(X.shape[1]):
        df = sum(1 for u in range(n) if X[u, i])
        idf = math.log(n / (df + 1) + 1)
        for u in range(n):
            x = X[u, i]
            if x:
                out[u, i] = idf * x * (k1 + 1) / (x + k1 * (1 - b + b * dl[u] / avg))
    return out


def weight(X, scheme, k1=1.2, b=0.75):
    return X if scheme == "NONE" else tfidf(X) if scheme == "TF_IDF" else bm25(X, k1, b)


EPS = 1e-6  # added by the library to every denominator


def similarity(kind, T, F, p, structure=None):
    """rows of T against rows of F -> list of {col: (value, tie_key)}"""
    T = [[float(v) for v in r] for r in T]
    F = [[float(v) for v in r] for r in F]
    sh = p.get("shrinkage", 0.0)
    res = []
    fn = [sum(v * v for v in f) for f in F]
    # entries whose weight happens to be exactly zero are still interactions
    fs = [frozenset(i for i, v in enumerate(f) if v) for f in (F if structure is None else structure)]
    for t in T:
        ts = frozenset(i for i, v in enumerate(t) if v)
        tn = sum(v * v for v in t)
        row = {}
        for j, f in enumerate(F):
            both = ts & fs[j]
            if not both:
                continue
            if kind in ("cosine", "asym"):
                dot = sum(t[i] * f[i] for i in both)
                if kind == "cosine":
                    v = dot / (math.sqrt(tn) * math.sqrt(fn[j]) + sh + EPS) if p.get("normalize") else dot
                else:
                    a = p["alpha"]
                    v = dot / (tn ** a * fn[j] ** (1 - a) + sh + EPS)
                exact = all(float(x).is_integer() for x in list(t) + list(f))
                key = (dot, fn[j]) if exact else ("col", j)  # weighting may round differently per item
            else:
                c, a, b = len(both), len(ts - fs[j]), len(fs[j] - ts)
                al, be = (1.0, 1.0) if kind == "jaccard" else (p["alpha"], p["beta"])
                v = c / (c + al * a + be * b + sh + EPS)
                key = (c, a, b)
            row[j] = (v, key)
        res.append(row)
    return res


def check_topk(ctx, got, want, k, msg, tol=1e-9, allow_zero_skip=True):
    """got: {col: value} stored non-zeros of one row (diagonal not dropped yet); want: {col: (value, key)}"""
    n = min(k, len(want))
    gotnz = {j: v for j, v in got.items() if v != 0}
    for j, v in gotnz.items():
        ctx.check(j in want, lambda: f"{msg}: weight {v} at unrelated index {j}")
        w = want[j][0]
        ctx.check(abs(v - w) <= tol * max(1.0, abs(w)), lambda: f"{msg}: weight at {j} is {v}, formula gives {w}")
    zeros = {j for j, (v, _) in want.items() if abs(v) <= tol}
    if zeros and any(v < 0 for v, _ in want.values()) and n < len(want):
        return  # zero-valued candidates compete with negative ones: not specified
    kept = set(gotnz) | (zeros & set(got))
    need = sorted(want, key=lambda j: (-want[j][0], j))
    sure = set(need[:n]) - zeros
    # exact membership up to near ties
    ctx.check(len(gotnz) <= n, lambda: f"{msg}: {len(gotnz)} weights kept, limit {n}")
    nz_expected = sum(1 for j in need[:n] if j not in zeros)
    ctx.check(len(gotnz) >= nz_expected or zeros, lambda: f"{msg}: only {len(gotnz)} of {nz_expected} weights kept: {sorted(gotnz)} of {need[:n]}")
    if zeros:
        ctx.check(len(set(gotnz) - zeros) >= nz_expected - 0, lambda: f"{msg}: only {sorted(gotnz)} kept of {need[:n]}")
    for d in set(want) - set(gotnz) - zeros:
        for j in gotnz:
            vd, kd = want[d]
            vj, kj = want[j]
            ctx.check(vd <= vj + tol, lambda: f"{msg}: kept {j} ({vj}) but dropped larger {d} ({vd})")
            if kd == kj:
                ctx.check(j < d, lambda: f"{msg}: tie between {j} and {d} went to the larger index")
