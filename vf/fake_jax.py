"""Stand-ins for jax, haiku and optax (not installed here), in double-precision
numpy, with what a small feed-forward model needs.  Parameter initialisation
depends on shapes only; gradients are exact (vf/tape.py); random draws depend
on their shape only (mode "fixed") or on the key (mode "keyed").

MON records, for the checks: for every optimizer update the training batch and
the keys its random draws used."""
import sys
import types

import numpy as np

from . import tape


class Monitor:
    def __init__(self):
        self.reset()

    def reset(self):
        self.batches, self.keys, self.cur, self.mode, self.last = [], [], [], "fixed", None
        self.in_grad = 0


MON = Monitor()


# ---- jax -------------------------------------------------------------------
def tree_map(f, t, *rest):
    if isinstance(t, dict):
        return {k: tree_map(f, t[k], *[r[k] for r in rest]) for k in t}
    if isinstance(t, (list, tuple)):
        v = [tree_map(f, x, *[r[i] for r in rest]) for i, x in enumerate(t)]
        return type(t)(*v) if hasattr(t, "_fields") else type(t)(v)
    if t is None:
        return None
    return f(t, *rest)


def tree_leaves(t):
    out = []
    tree_map(lambda x: out.append(x), t)
    return out


def value_and_grad(f, argnums=0, has_aux=False):
    assert argnums == 0

    def g(params, *a, **k):
        MON.in_grad += 1
        try:
            p = tree_map(tape.T, params)
            try:
                out = f(p, *a, **k)
            except tape.Unsupported:
                return differences(f, params, a, k, has_aux)
            loss = out[0] if has_aux else out
            if not isinstance(loss, tape.T):
                grads = tree_map(lambda x: np.zeros_like(x.v), p)
                return out, grads
            assert loss.v.size == 1, "Gradient only defined for scalar-output functions."
            tape.backward(loss)
            grads = tree_map(lambda x: np.zeros_like(x.v) if x.g is None else np.array(x.g).reshape(x.v.shape), p)
            return ((loss.v, out[1]) if has_aux else loss.v), grads
        finally:
            MON.in_grad -= 1

    return g


def differences(f, params, a, k, has_aux, h=1e-5):
    val = f(params, *a, **k)
    p = tree_map(lambda x: np.array(x, dtype=np.float64), params)
    grads = tree_map(np.zeros_like, p)
    for x, gx in zip(tree_leaves(p), tree_leaves(grads)):
        xf, gf = x.reshape(-1), gx.reshape(-1)
        for i in range(xf.size):
            o = xf[i]
            xf[i] = o + h
            up = f(p, *a, **k)
            xf[i] = o - h
            dn = f(p, *a, **k)
            xf[i] = o
            if has_aux:
                up, dn = up[0], dn[0]
            gf[i] = (float(up) - float(dn)) / (2 * h)
    return val, grads


def grad(f, argnums=0, has_aux=False):
    vg = value_and_grad(f, argnums, has_aux)

    def g(*a, **k):
        v, d = vg(*a, **k)
        return (d, v[1]) if has_aux else d

    return g


def jit(f=None, static_argnums=(), static_argnames=(), **kw):
    if f is None:
        return lambda q: jit(q)
    return f


def log_softmax(x, axis=-1):
    m = tape.val(x).max(axis=axis, keepdims=True)
    return x - m - np.log(np.exp(x - m).sum(axis=axis, keepdims=True))


def softmax(x, axis=-1):
    return np.exp(log_softmax(x, axis))


# ---- random ----------------------------------------------------------------
def logsumexp(x, axis=-1, keepdims=False):
    m = np.asarray(tape.val(x)).max(axis=axis, keepdims=True)
    r = np.log(np.exp(x - m).sum(axis=axis, keepdims=True)) + m
    return r if keepdims else r.reshape(m.squeeze(axis=axis).shape)


def PRNGKey(seed):
    return ("k", int(seed))


def split(key, num=2):
    return [key + (i,) for i in range(num)]


def _draw(key, shape):
    assert isinstance(key, tuple), "not a random key"
    n = int(np.prod(shape, dtype=int))
    i = np.arange(n)
    if MON.mode == "fixed":
        s = 0
    else:
        import zlib

        s = zlib.crc32(repr(key).encode()) % 100003
    return ((i * 7919 + 104729 * (s + 1)) % 1009).reshape(shape)


def normal(key, shape=(), dtype=float):
    if MON.in_grad:
        MON.cur.append(key)
    return (_draw(key, shape) - 504.0) / 300.0


def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
    if MON.in_grad:
        MON.cur.append(key)
    return minval + (maxval - minval) * _draw(key, shape) / 1009.0


def bernoulli(key, p=0.5, shape=()):
    return uniform(key, shape) < p


# ---- haiku -----------------------------------------------------------------
class _Frame:
    def __init__(self, params, key, init):
        self.params, self.key, self.init, self.n, self.names = params, key, init, 0, {}

    def name(self, base):
        i = self.names.get(base, 0)
        self.names[base] = i + 1
        return base if i == 0 else f"{base}_{i}"


_stack = []


def next_rng_key():
    f = _stack[-1]
    if f.key is None:
        raise ValueError("You must pass a non-None PRNGKey to init and/or apply if you make use of random numbers.")
    f.n += 1
    return f.key + ("d", f.n)


def next_rng_keys(n):
    return [next_rng_key() for _ in range(n)]


def maybe_next_rng_key():
    return next_rng_key() if _stack[-1].key is not None else None


def weights(n_in, n_out):
    i = np.arange(n_in * n_out)
    return (((i * 37 + 11 * (n_in + 1) ) % 19) / 9.0 - 1.0).reshape(n_in, n_out) / np.sqrt(max(n_in, 1))


class Linear:
    def __init__(self, output_size, with_bias=True, w_init=None, b_init=None, name=None):
        self.output_size, self.with_bias = int(output_size), with_bias
        if not _stack:
            raise ValueError("All `hk.Module`s must be initialized inside an `hk.transform`.")
        self.name = _stack[-1].name(name or "linear")

    def __call__(self, x):
        f = _stack[-1]
        if f.init and self.name not in f.params:
            p = dict(w=weights(x.shape[-1], self.output_size))
            if self.with_bias:
                p["b"] = np.zeros(self.output_size)
            f.params[self.name] = p
        p = f.params[self.name]
        r = x @ p["w"]
        return r + p["b"] if self.with_bias else r


class Sequential:
    def __init__(self, layers, name=None):
        self.layers = list(layers)

    def __call__(self, x, *a, **k):
        for i, l in enumerate(self.layers):
            x = l(x, *a, **k) if i == 0 else l(x)
        return x


def dropout_mask(rate, shape):
    i = np.arange(int(np.prod(shape, dtype=int)))
    return (((i * 7919 + 104729) % 1009) / 1009.0 < 1.0 - rate).reshape(shape)


def dropout(rng, rate, x, broadcast_dims=()):
    if rate < 0 or rate >= 1:
        raise ValueError("rate must be in [0, 1).")
    if rate == 0.0:
        return x
    keep = bernoulli(rng, 1.0 - rate, x.shape)
    return keep * x / (1.0 - rate)


class PRNGSequence:
    def __init__(self, key_or_seed):
        self.key = PRNGKey(key_or_seed) if isinstance(key_or_seed, int) else key_or_seed
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return self.key + ("s", self.i)

    next = __next__


class Transformed:
    def __init__(self, f):
        self.f = f

    def init(self, rng, *a, **k):
        _stack.append(_Frame({}, rng, True))
        try:
            self.f(*a, **k)
            return _stack[-1].params
        finally:
            _stack.pop()

    def apply(self, params, rng, *a, **k):
        fr = _Frame(params, rng, False)
        _stack.append(fr)
        try:
            if MON.in_grad:
                MON.cur = []
                MON.last = next((np.array(x) for x in list(a) + list(k.values()) if isinstance(x, np.ndarray) and x.ndim == 2), None)
            return self.f(*a, **k)
        finally:
            _stack.pop()


def transform(f, apply_rng=True):
    return Transformed(f)


def without_apply_rng(t):
    r = Transformed(t.f)
    ap = t.apply
    r.apply = lambda params, *a, **k: ap(params, None, *a, **k)
    return r


# ---- optax -----------------------------------------------------------------
class AdamState:
    def __init__(self, count, mu, nu):
        self.count, self.mu, self.nu = count, mu, nu


class Adam:
    def __init__(self, learning_rate, b1=0.9, b2=0.999, eps=1e-8):
        self.lr, self.b1, self.b2, self.eps = learning_rate, b1, b2, eps

    def init(self, params):
        return AdamState(0, tree_map(np.zeros_like, params), tree_map(np.zeros_like, params))

    def update(self, grads, state, params=None):
        MON.batches.append(MON.last)
        MON.keys.append(list(MON.cur))
        c = state.count + 1
        mu = tree_map(lambda m, g: self.b1 * m + (1 - self.b1) * g, state.mu, grads)
        nu = tree_map(lambda v, g: self.b2 * v + (1 - self.b2) * g * g, state.nu, grads)
        up = tree_map(lambda m, v: -self.lr * (m / (1 - self.b1**c)) / (np.sqrt(v / (1 - self.b2**c)) + self.eps), mu, nu)
        return up, AdamState(c, mu, nu)


def adam(learning_rate, b1=0.9, b2=0.999, eps=1e-8, **kw):
    return Adam(learning_rate, b1, b2, eps)


def apply_updates(params, updates):
    return tree_map(lambda p, u: p + u, params, updates)


def install():
    try:
        import jax, haiku, optax  # noqa

        return False
    except ImportError:
        pass
    jnp = types.ModuleType("jax.numpy")
    for n in dir(np):
        if not n.startswith("_"):
            setattr(jnp, n, getattr(np, n))
    # single precision requests are widened, so that results have no rounding noise
    jnp.float32 = np.float64
    jnp.asarray = lambda x, dtype=None: np.asarray(x, dtype=np.float64 if dtype in (None, np.float32) and np.asarray(x).dtype.kind == "f" else dtype)
    jnp.array = lambda x, dtype=None, **k: np.array(jnp.asarray(x, dtype))
    J = types.ModuleType("jax")
    J.numpy, J.jit, J.grad, J.value_and_grad = jnp, jit, grad, value_and_grad
    J.Array = np.ndarray
    J.vmap = None
    J.device_get = J.device_put = lambda x: x
    J.nn = types.ModuleType("jax.nn")
    J.nn.log_softmax, J.nn.softmax, J.nn.tanh, J.nn.relu = log_softmax, softmax, np.tanh, lambda x: np.maximum(x, 0)
    J.nn.logsumexp, J.nn.sigmoid = logsumexp, lambda x: 1 / (1 + np.exp(-x))
    J.scipy = types.ModuleType("jax.scipy")
    J.scipy.special = types.ModuleType("jax.scipy.special")
    J.scipy.special.logsumexp = logsumexp
    J.random = types.ModuleType("jax.random")
    J.random.PRNGKey = J.random.key = PRNGKey
    J.random.split, J.random.normal, J.random.uniform, J.random.bernoulli = split, normal, uniform, bernoulli
    J.tree_util = types.ModuleType("jax.tree_util")
    J.tree_util.tree_map, J.tree_util.tree_leaves = tree_map, tree_leaves
    J.tree = types.ModuleType("jax.tree")
    J.tree.map, J.tree.leaves = tree_map, tree_leaves
    H = types.ModuleType("haiku")
    H.Params = dict
    H.PRNGSequence, H.Linear, H.Sequential, H.dropout = PRNGSequence, Linear, Sequential, dropout
    H.next_rng_key, H.next_rng_keys, H.maybe_next_rng_key = next_rng_key, next_rng_keys, maybe_next_rng_key
    H.transform, H.without_apply_rng, H.Transformed, H.Module = transform, without_apply_rng, Transformed, object
    O = types.ModuleType("optax")
    O.OptState, O.adam, O.apply_updates, O.GradientTransformation = AdamState, adam, apply_updates, Adam
    for n, m in {"jax": J, "jax.numpy": jnp, "jax.nn": J.nn, "jax.scipy": J.scipy, "jax.scipy.special": J.scipy.special, "jax.random": J.random, "jax.tree_util": J.tree_util, "jax.tree": J.tree, "haiku": H, "optax": O}.items():
        sys.modules[n] = m
    return True
