"""Deterministic stand-ins for the optional third-party packages that are not
installed here (lightfm; jax, haiku and optax), just enough to run irspack's
wrappers around them.  They are environment, not code under test."""
import sys
import types

import numpy as np


class LightFM:
    def __init__(self, no_components=10, item_alpha=0.0, user_alpha=0.0, loss="logistic", **kw):
        self.no_components, self.item_alpha, self.user_alpha, self.loss = no_components, item_alpha, user_alpha, loss
        self.epochs = 0

    def fit_partial(self, X, num_threads=1, epochs=1, **kw):
        assert X.format == "coo"
        if not self.epochs:
            r = np.random.RandomState(int(1e9 * abs(self.item_alpha) + 7e9 * abs(self.user_alpha) + 31 * len(self.loss)) % 2 ** 31)
            self.user_embeddings = r.randint(-3, 4, (X.shape[0], self.no_components)).astype(np.float32)
            self.item_embeddings = r.randint(-3, 4, (X.shape[1], self.no_components)).astype(np.float32)
            self.item_biases = r.randint(-3, 4, X.shape[1]).astype(np.float32)
            self.user_biases = np.zeros(X.shape[0], dtype=np.float32)
        self.epochs += epochs
        self.threads = num_threads
        self.user_embeddings[:, 0] += 1
        return self


def _lightfm():
    m = types.ModuleType("lightfm")
    m.LightFM = LightFM
    return {"lightfm": m}


class PRNGSequence:
    def __init__(self, seed):
        self.n = seed

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return self.n


class _Transformed:
    def __init__(self, f):
        self.f = f

    def init(self, rng, *a):
        _frame.update(params={}, n=0, key=rng, init=True)
        self.f(*a)
        return _frame["params"]

    def apply(self, params, rng, *a):
        _frame.update(params=params, n=0, key=rng, init=False)
        return self.f(*a)


_frame = {}
seen_batches = []       # training batches, for the checks


class Linear:
    def __init__(self, d):
        self.d = d

    def __call__(self, X):
        k = f"linear{_frame['n']}"
        _frame["n"] += 1
        if _frame["init"]:
            r = np.random.RandomState(_frame["n"])
            _frame["params"][k] = {"w": r.normal(size=(X.shape[1], self.d)), "b": np.zeros(self.d)}
        p = _frame["params"][k]
        return X @ p["w"] + p["b"]


def _sequential(layers):
    def f(X):
        for layer in layers:
            X = layer(X)
        return X
    return f


def _key():
    _frame["key"] += 1000
    return _frame["key"]


def _log_softmax(X, axis=-1):
    z = X - X.max(axis=axis, keepdims=True)
    return z - np.log(np.exp(z).sum(axis=axis, keepdims=True))


def _grad(f):
    def g(params, rng, X, *a):
        seen_batches.append(np.array(X))
        f(params, rng, X, *a)
        return {k: {n: np.cos(v + X.sum()) for n, v in p.items()} for k, p in params.items()}
    return g


class _Opt:
    def __init__(self, learning_rate):
        self.lr = learning_rate

    def init(self, params):
        return 0

    def update(self, grads, state):
        return {k: {n: -self.lr * v for n, v in p.items()} for k, p in grads.items()}, state + 1


def _jax():
    hk, jax, jnp, jnn, jr, optax = (types.ModuleType(n) for n in ("haiku", "jax", "jax.numpy", "jax.nn", "jax.random", "optax"))
    hk.Linear, hk.Sequential, hk.next_rng_key, hk.transform, hk.PRNGSequence, hk.Params = Linear, _sequential, _key, _Transformed, PRNGSequence, dict
    hk.dropout = lambda key, p, X: X * (np.random.RandomState(key % 2 ** 31).random_sample(X.shape) >= p) / (1 - p)
    for n in ("ndarray", "sqrt", "exp", "tanh", "asarray", "float32"):
        setattr(jnp, n, getattr(np, n))
    jnn.log_softmax = _log_softmax
    jr.normal = lambda key, shape: np.random.RandomState(key % 2 ** 31).normal(size=shape)
    jax.numpy, jax.nn, jax.random = jnp, jnn, jr
    jax.jit = lambda f, **k: f
    jax.grad = _grad
    optax.OptState, optax.adam = int, _Opt
    optax.apply_updates = lambda p, u: {k: {n: v + u[k][n] for n, v in q.items()} for k, q in p.items()}
    return {"haiku": hk, "jax": jax, "jax.numpy": jnp, "jax.nn": jnn, "jax.random": jr, "optax": optax}


def install():
    for name, mod in {**_lightfm(), **_jax()}.items():
        sys.modules.setdefault(name, mod)
