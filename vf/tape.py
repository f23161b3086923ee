"""Reverse-mode differentiation over numpy (for vf/fake_jax.py)."""
import numpy as np


def unb(g, shape):
    """undo broadcasting"""
    g = np.asarray(g)
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = g.sum(axis=i, keepdims=True)
    return g


class Unsupported(Exception):
    pass


def val(x):
    return x.v if isinstance(x, T) else x


class T:
    __array_priority__ = 1000

    def __init__(self, v, parents=()):
        self.v, self.parents, self.g = np.asarray(v, dtype=np.float64), parents, None

    shape = property(lambda s: s.v.shape)
    ndim = property(lambda s: s.v.ndim)
    size = property(lambda s: s.v.size)
    dtype = property(lambda s: s.v.dtype)
    T = property(lambda s: T(s.v.T, ((s, lambda g: g.T),)))

    def __len__(self):
        return len(self.v)

    def __float__(self):
        raise Unsupported("value of a traced array")

    def __bool__(self):
        raise Unsupported("control flow on a traced array")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a traced array")

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        o = self.v.shape
        return T(self.v.reshape(s), ((self, lambda g: g.reshape(o)),))

    ravel = lambda s: s.reshape(-1)

    def __getitem__(self, i):
        o = self.v.shape

        def back(g):
            z = np.zeros(o)
            np.add.at(z, i, g)
            return z

        return T(self.v[i], ((self, back),))

    def sum(self, axis=None, keepdims=False, **k):
        o = self.v.shape

        def back(g):
            if axis is not None and not keepdims:
                g = np.expand_dims(g, axis)
            return np.broadcast_to(g, o)

        return T(self.v.sum(axis=axis, keepdims=keepdims), ((self, back),))

    def mean(self, axis=None, keepdims=False, **k):
        r = self.sum(axis=axis, keepdims=keepdims)
        return r * (r.v.size / self.v.size) if self.v.size else r

    def dot(self, o):
        return self @ o

    def __array_ufunc__(self, uf, method, *a, **k):
        if method != "__call__" or k.get("out") is not None:
            raise Unsupported(f"{uf} {method}")
        return _uf(uf, *a)

    def __array_function__(self, f, types, a, k):
        n = f.__name__
        if n in ("sum", "mean"):
            return getattr(a[0], n)(*a[1:], **k)
        if n == "dot":
            return _uf(np.matmul, *a)
        if n in ("reshape", "ravel"):
            return getattr(a[0], n)(*a[1:])
        if n == "transpose" and len(a) == 1:
            return a[0].T
        if n == "shape":
            return a[0].shape
        if n in ("zeros_like", "ones_like"):
            return f(a[0].v, **k)
        if n == "expand_dims":
            o = a[0].shape
            return T(np.expand_dims(a[0].v, *a[1:], **k), ((a[0], lambda g: g.reshape(o)),))
        if n == "split":
            return [a[0][(slice(None),) * (k.get("axis", a[2] if len(a) > 2 else 0)) + (slice(p[0], p[-1] + 1),)]
                    for p in np.split(np.arange(a[0].shape[k.get("axis", a[2] if len(a) > 2 else 0)]), a[1])]
        if n == "where":
            c = val(a[0])
            return T(np.where(c, val(a[1]), val(a[2])), tuple((x, (lambda m, x: lambda g: unb(np.where(m, g, 0), x.shape))(m, x)) for x, m in ((a[1], c), (a[2], np.logical_not(c))) if isinstance(x, T)))
        if n in ("concatenate", "hstack"):
            ax = k.get("axis", a[1] if len(a) > 1 else 0) if n == "concatenate" else 1
            ps, at = [], 0
            for x in a[0]:
                w = x.shape[ax]
                if isinstance(x, T):
                    ps.append((x, (lambda s, w: lambda g: np.take(g, range(s, s + w), axis=ax))(at, w)))
                at += w
            return T(np.concatenate([val(x) for x in a[0]], axis=ax), tuple(ps))
        if n in ("max", "amax", "argmax"):
            return f(a[0].v, *a[1:], **k)  # used as a constant shift
        raise Unsupported(n)


def _uf(uf, *a):
    v = [np.asarray(val(x), dtype=np.float64) if not isinstance(val(x), (bool, np.bool_)) else val(x) for x in a]
    n = uf.__name__
    r = uf(*v)
    x = v[0]
    y = v[1] if len(v) > 1 else None
    if n in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal", "isnan", "isfinite", "sign"):
        return r
    if n == "matmul":
        d = [lambda g: (g @ y.T if y.ndim == 2 else np.outer(g, y)), lambda g: (x.T @ g if x.ndim == 2 else np.outer(x, g))]
        return T(r, tuple((p, q) for p, q in zip(a, d) if isinstance(p, T)))
    D = {
        "add": (lambda g: g, lambda g: g),
        "subtract": (lambda g: g, lambda g: -g),
        "multiply": (lambda g: g * y, lambda g: g * x),
        "divide": (lambda g: g / y, lambda g: -g * x / (y * y)),
        "true_divide": (lambda g: g / y, lambda g: -g * x / (y * y)),
        "power": (lambda g: g * y * x ** (y - 1), None),
        "negative": (lambda g: -g,),
        "positive": (lambda g: g,),
        "exp": (lambda g: g * r,),
        "expm1": (lambda g: g * (r + 1),),
        "log": (lambda g: g / x,),
        "log1p": (lambda g: g / (1 + x),),
        "sqrt": (lambda g: g / (2 * r),),
        "square": (lambda g: 2 * g * x,),
        "tanh": (lambda g: g * (1 - r * r),),
        "reciprocal": (lambda g: -g * r * r,),
        "absolute": (lambda g: g * np.sign(x),),
        "maximum": (lambda g: g * (x >= y), lambda g: g * (x < y)),
        "minimum": (lambda g: g * (x <= y), lambda g: g * (x > y)),
    }.get(n)
    if D is None or any(isinstance(p, T) and d is None for p, d in zip(a, D)):
        raise Unsupported(n)
    return T(r, tuple((p, (lambda d, s: lambda g: unb(d(g), s))(d, p.shape)) for p, d in zip(a, D) if isinstance(p, T)))


def _bin(uf, swap=False):
    return (lambda s, o: _uf(uf, o, s)) if swap else (lambda s, o: _uf(uf, s, o))


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.divide), ("pow", np.power), ("matmul", np.matmul)):
    setattr(T, f"__{_n}__", _bin(_u))
    setattr(T, f"__r{_n}__", _bin(_u, True))
for _n, _u in (("gt", np.greater), ("lt", np.less), ("ge", np.greater_equal), ("le", np.less_equal)):
    setattr(T, f"__{_n}__", _bin(_u))
T.__neg__ = lambda s: _uf(np.negative, s)
T.__abs__ = lambda s: _uf(np.absolute, s)


def backward(out):
    order, seen = [], set()

    def visit(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        for p, _ in t.parents:
            visit(p)
        order.append(t)

    visit(out)
    out.g = np.ones_like(out.v)
    for t in reversed(order):
        if t.g is None:
            continue
        for p, f in t.parents:
            g = f(t.g)
            p.g = g if p.g is None else p.g + g
