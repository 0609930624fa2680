"""C25: log-density wrappers evaluate exactly the user's functions."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
import tape as T
from flowMC.resource.logPDF import LogPDF, TemperedPDF, Variable
from flowMC.resource.model.common import Composable, Distribution, Gaussian

LEVEL = "model_checking"
BOUNDS = ("every sequence up to depth 3 of {pytree round trip, tree map, jit, jit with the wrapper as argument, vmap, gradient} applied to plain and tempered wrappers of "
          "every (function, data, dimension, temperature) of the stated grids at every grid position; every declaration of variables; every ordered split of up to 4 "
          "coordinates into parts with every order of parts; the draw map of Gaussian and composite samples recovered through the controlled PRNG; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = []


def likes():
    return {
        "quad": (lambda x, data: -jnp.sum((x - data["mu"]) ** 2 * jnp.arange(1, x.shape[0] + 1)), [{"mu": 0.0}, {"mu": jnp.asarray(0.7)}]),
        "array": (lambda x, data: jnp.sum(jnp.sin(x) * data[: x.shape[0]]) - 0.5 * x[0] ** 2, [jnp.array([1.0, -2.0, 0.3]), jnp.zeros(3)]),
        "tuple": (lambda x, data: data[0] * x[0] + jnp.prod(x) * data[1]["k"], [(2.0, {"k": -1.0})]),
        "none": (lambda x, data: jnp.where(x[0] > 0.5, -jnp.inf, -jnp.sum(x**4)), [None, {}]),
    }


def priors():
    return {"zero": lambda x, data: 0.0 * x[0], "slope": lambda x, data: 0.3 * x[-1] - 0.1 * x[0] ** 2, "box": lambda x, data: jnp.where(jnp.all(jnp.abs(x) < 1.5), -1.25, -jnp.inf)}


def positions(d):
    return jnp.asarray(list(itertools.product((-2.0, -0.3, 0.4, 1.1) if d < 3 else (-2.0, 0.4), repeat=d)))


ROUND = {
    "roundtrip": lambda w: jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(w)[::-1]),
    "map": lambda w: jax.tree_util.tree_map(lambda a: a, w),
    "nested": lambda w: jax.tree_util.tree_map(lambda a: a, {"k": [w, jnp.ones(2)]})["k"][0],
    "jitout": lambda w: jax.jit(lambda q: q)(w),
}


def evals(f, direct, X, data, argument):
    """f(wrapper-or-None, x): same composition on wrapper and on the user's function."""
    out = {}
    a = jax.vmap(lambda x: f(x))(X)
    b = jax.vmap(lambda x: direct(x))(X)
    out["vmap"] = (a, b)
    out["jit"] = (jax.jit(f)(X[1]), direct(X[1]))
    out["plain"] = (f(X[2]), direct(X[2]))
    out["grad"] = (jax.vmap(jax.grad(lambda x: jnp.sum(f(x))))(X), jax.vmap(jax.grad(lambda x: jnp.sum(direct(x))))(X))
    out["jit-grad"] = (jax.jit(jax.grad(lambda x: jnp.sum(f(x))))(X[1]), jax.grad(lambda x: jnp.sum(direct(x)))(X[1]))
    out["argument"] = (argument(X), b)
    return out


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def describe(w):
    return [(type(w).__name__, w.n_dims, tuple((v.name, v.continuous) for v in w.variables))]


def sequences(depth):
    for n in range(depth + 1):
        yield from itertools.product(ROUND, repeat=n)


@jax.jit
def _arg_plain(w, X, data):
    return jax.vmap(lambda x: w(x, data))(X)


@jax.jit
def _arg_tempered(w, X, data, t):
    return jax.vmap(lambda x: w.tempered_log_pdf(t, x, data))(X)


def plain(ctx):
    depth = 2 if not ctx.thorough else 3
    for (ln, (fn, datas)), d in itertools.product(likes().items(), (1, 2, 3)):
        X = positions(d)
        w0 = LogPDF(fn, n_dims=d)
        seen = describe(w0)
        for seq in sequences(depth):
            k = f"plain-{ln}-{d}d"
            w = w0
            for s in seq:
                w = mc.guard(ctx, k + ":exception", ROUND[s], w)
                if w is None:
                    return
            ctx.check(describe(w) == seen, k + ":declared", f"after {seq} the wrapper is {describe(w)}, was {seen}")
            for i, data in enumerate(datas):
                if len(seq) > 1 and i:
                    continue
                r = mc.guard(ctx, k + ":exception", evals, lambda x: w(x, data), lambda x: fn(x, data), X if len(seq) < 2 else X[:3], data, lambda Y: _arg_plain(w, Y, data))
                for n, (a, b) in (r or {}).items():
                    ctx.check(same(a, b), f"{k}:{n}", f"after {seq}, {n}: the wrapper gives {np.asarray(a).tolist()}, the user's function {np.asarray(b).tolist()}")
                    ctx.count(transitions=1)
            ctx.count(states=1, traces=1)
    ctx.sample({"wrappers": len(likes()) * 3, "sequences": len(list(sequences(depth)))})


def tempered(ctx):
    temps = (1.0, 2.0, 0.5, 1e3, 37.25)
    for (ln, (fn, datas)), (pn, prior), d in itertools.product(likes().items(), priors().items(), (1, 2, 3)):
        if d == 3 and not ctx.thorough and pn == "zero":
            continue
        X = positions(d)
        for extra in ({}, {"n_temps": 3, "max_temp": 7.0}):
            w0 = TemperedPDF(fn, prior, n_dims=d, **extra)
            seen = describe(w0)
            for seq in sequences(1 if not ctx.thorough else 2):
                if extra and seq:
                    continue
                k = f"tempered-{ln}-{pn}-{d}d"
                w = w0
                for s in seq:
                    w = mc.guard(ctx, k + ":exception", ROUND[s], w)
                    if w is None:
                        return
                ctx.check(describe(w) == seen, k + ":declared", f"after {seq} the wrapper is {describe(w)}, was {seen}")
                for i, data in enumerate(datas):
                    # untempered: the likelihood alone
                    a = mc.guard(ctx, k + ":exception", _arg_plain, w, X, data)
                    b = jax.vmap(lambda x: fn(x, data))(X)
                    ctx.check(a is not None and same(a, b), k + ":untempered", f"called untempered after {seq} it gives {np.asarray(a).tolist()}, the likelihood is {np.asarray(b).tolist()}")
                    for t in temps if not seq else temps[1:2]:
                        want = jax.vmap(lambda x: fn(x, data) / t + prior(x, data))(X)
                        got = mc.guard(ctx, k + ":exception", _arg_tempered, w, X, data, t)
                        ctx.check(got is not None and same(got, want), k + ":value", f"at T={t} after {seq}: {np.asarray(got).tolist()}, likelihood / T + prior is {np.asarray(want).tolist()}")
                        ctx.count(transitions=len(X))
                        if i == 0 and (t in (2.0, 37.25)):
                            r = mc.guard(ctx, k + ":exception", evals, lambda x: w.tempered_log_pdf(t, x, data), lambda x: fn(x, data) / t + prior(x, data), X[:3], data, lambda Y: _arg_tempered(w, Y, data, t))
                            for n, (p, q) in (r or {}).items():
                                ctx.check(same(p, q), f"{k}:{n}", f"T={t}, after {seq}, {n}: {np.asarray(p).tolist()}, must be {np.asarray(q).tolist()}")
                                ctx.count(transitions=1)
                    # a vector of temperatures with a vector of positions, as the exchange uses it
                    ts = jnp.asarray(temps[:3])
                    got = jax.vmap(w.tempered_log_pdf, in_axes=(0, 0, None))(ts, X[:3] if len(X) >= 3 else X, data)
                    want = jnp.stack([fn(x, data) / t + prior(x, data) for t, x in zip(ts, X)])
                    ctx.check(same(got, want), k + ":pairs", f"over pairs of temperature and position: {np.asarray(got).tolist()}, must be {np.asarray(want).tolist()}")
                ctx.count(states=1, traces=1)
    ctx.sample({"temperatures": temps})


def confusion(ctx):
    """Different wrappers handed to the same compiled function keep their own meaning, in any order."""
    fs = [lambda x, data: jnp.sum(x), lambda x, data: -jnp.sum(x), lambda x, data: x[0] * data["a"]]
    ws = [LogPDF(f, n_dims=2) for f in fs] + [LogPDF(fs[0], variables=[Variable("u", True), Variable("v", False)])]
    wants = [3.0, -3.0, 2.5, 3.0]
    ts = [TemperedPDF(a, b, n_dims=2) for a, b in itertools.permutations(fs, 2)]
    X = jnp.array([[1.0, 2.0]])
    data = {"a": 2.5}
    for order in itertools.product(range(len(ws)), repeat=3):
        for i in order:
            got = _arg_plain(ws[i], X, data)[0]
            ctx.check(float(got) == wants[i], "confusion", f"wrapper {i}, used after others in order {order}, gives {float(got)}, must give {wants[i]}")
            ctx.count(transitions=1)
        ctx.count(states=1, traces=1)
    for order in itertools.permutations(range(len(ts)), 2):
        for i in order:
            want = float(ts[i].log_pdf(X[0], data) / 4.0 + ts[i].log_prior(X[0], data))
            pair = list(itertools.permutations(fs, 2))[i]
            want = float(pair[0](X[0], data) / 4.0 + pair[1](X[0], data))
            got = float(_arg_tempered(ts[i], X, data, 4.0)[0])
            ctx.check(abs(got - want) < 1e-6, "confusion-tempered", f"tempered wrapper {i} gives {got}, must give {want}")
            ctx.count(transitions=1)
        ctx.count(states=1, traces=1)


def declarations(ctx):
    f = lambda x, data: jnp.sum(x)
    mk = {"plain": lambda **k: LogPDF(f, **k), "tempered": lambda **k: TemperedPDF(f, f, **k)}
    for kind, make in mk.items():
        for n in range(5):
            w = mc.guard(ctx, f"declared-{kind}:exception", make, n_dims=n)
            if w is not None:
                ctx.check(describe(w)[0][1:] == (n, tuple((f"x_{i}", True) for i in range(n))), f"declared-{kind}", f"n_dims={n} declares {describe(w)}")
            for flags in itertools.product((True, False), repeat=min(n, 3)):
                vs = [Variable("abc"[i] + str(n), fl) for i, fl in enumerate(flags)]
                for nd in (None, 0, 7):
                    w = mc.guard(ctx, f"declared-{kind}:exception", make, variables=list(vs), n_dims=nd)
                    if w is not None:
                        for h, z in (("built", w), ("rebuilt", jax.tree.map(lambda a: a, w)), ("rebuilt twice", jax.tree.unflatten(*reversed(jax.tree.flatten(jax.tree.map(lambda a: a, w)))))):
                            ctx.check(describe(z)[0][1:] == (len(vs), tuple((v.name, v.continuous) for v in vs)), f"declared-{kind}:variables", f"variables {vs} with n_dims={nd} declare {describe(z)} once {h}")
                    ctx.count(states=1, transitions=1, traces=1)
        try:
            make()
            ctx.violation(f"declared-{kind}:none", "neither variables nor n_dims given: no ValueError")
        except ValueError:
            pass


# ---- distributions -----------------------------------------------------------------

def covs(n):
    A = np.tril(np.arange(1.0, n * n + 1).reshape(n, n)) / n + np.eye(n)
    return [np.eye(n), A @ A.T, np.diag(np.arange(1.0, n + 1) * 0.3)]


def gaussian(ctx):
    for n in (1, 2, 3):
        for (ci, cov), mean, learn in itertools.product(enumerate(covs(n)), (np.zeros(n), np.linspace(-1, 2, n) + 5), (False, True)):
            g = Gaussian(jnp.asarray(mean), jnp.asarray(cov), learnable=learn)
            k = f"gaussian-{n}d-cov{ci}-{'learnable' if learn else 'fixed'}"
            X = np.asarray(positions(n))
            dev = X - mean
            want = -0.5 * np.einsum("ni,ij,nj->n", dev, np.linalg.inv(cov), dev) - 0.5 * np.linalg.slogdet(2 * np.pi * cov)[1]
            for call in (g.log_prob, g):
                got = np.asarray(jax.vmap(call)(jnp.asarray(X)))
                ctx.check(np.allclose(got, want, rtol=1e-7, atol=1e-9), k + ":log_prob", f"log-densities {got[:3].tolist()}, must be {want[:3].tolist()}")
            ctx.check(np.array_equal(g.mean, mean) and np.array_equal(g.cov, cov), k + ":parameters", "mean and covariance are not those given")
            # the map from draws to points is mean + A z with A A^T = cov, one block of draws per point
            N = 3
            tp, _ = T.discover(lambda key: g.sample(key, N))
            rows = np.full((2 * tp.S + 1, tp.S), T.z_to_bits(0.25), np.uint32)
            for s in range(tp.S):
                rows[1 + 2 * s, s] = T.z_to_bits(1.25)
                rows[2 + 2 * s, s] = T.z_to_bits(-2.0)
            o = np.asarray(jax.vmap(lambda key: g.sample(key, N))(tp.keys(rows)))
            ctx.check(o.shape[1:] == (N, n), k + ":shape", f"{N} samples have shape {o.shape[1:]}")
            z = T.bits_to_z(rows)
            J = np.stack([(o[1 + 2 * s] - o[0]) / (z[1 + 2 * s, s] - z[0, s]) for s in range(tp.S)])
            J2 = np.stack([(o[2 + 2 * s] - o[0]) / (z[2 + 2 * s, s] - z[0, s]) for s in range(tp.S)])
            ctx.check(np.allclose(J, J2, rtol=1e-5, atol=1e-6), k + ":linear", "the sample is not linear in its draws")
            for p in range(N):
                own = np.argwhere(np.abs(J[:, p]).max(1) > 1e-9)[:, 0]
                others = [q for q in range(N) if q != p and np.abs(J[own][:, q]).max() > 1e-9]
                ctx.check(not others, k + ":independent", f"points {p} and {others} share draws")
                A = J[:, p].T
                ctx.check(np.allclose(A @ A.T, cov, rtol=1e-4, atol=1e-5), k + ":cov", f"samples have covariance {(A @ A.T).tolist()}, must be {cov.tolist()}")
                ctx.check(np.allclose(o[0, p] - J[:, p].T @ z[0], mean, atol=1e-4), k + ":mean", "samples are not centred at the mean")
            ctx.count(states=len(X) + tp.S, transitions=len(rows), traces=1)
    ctx.sample({"last": k})


class Probe(Distribution):
    """log_prob reveals the coordinates it is given, sample the key it is given"""

    a: float

    def __init__(self, a):
        self.a = a

    def log_prob(self, x):
        return self.a * jnp.sum(x * 100.0 ** jnp.arange(x.shape[0])) + 1e7 * self.a * x.shape[0]

    def sample(self, rng_key, n_samples):
        return self.a + jax.random.uniform(rng_key, (n_samples, 1))


def composite(ctx):
    def splits(n):
        for cuts in itertools.product((False, True), repeat=n - 1):
            e = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [n]
            yield [(a, b) for a, b in zip(e, e[1:])]

    for n in (1, 2, 3, 4):
        X = jnp.asarray(np.array(list(itertools.product((1.0, 2.0, 5.0), repeat=n))))
        for parts in splits(n):
            for perm in itertools.permutations(range(len(parts))):
                rs = [parts[i] for i in perm]
                a = [1.0, 7.0, 31.0, 0.5][: len(rs)]
                names = [f"p{(3 * i) % 5}" for i in range(len(rs))]
                c = Composable([Probe(q) for q in a], dict(zip(names, rs)))
                want = sum(q * ((X[:, r[0] : r[1]] * 100.0 ** jnp.arange(r[1] - r[0])).sum(1) + 1e7 * (r[1] - r[0])) for q, r in zip(a, rs))
                k = f"composite-{rs}"
                for call in (c.log_prob, c):
                    got = mc.guard(ctx, k + ":exception", lambda: jax.vmap(call)(X))
                    ctx.check(got is not None and same(got, want), k, f"the composite on {rs} gives {np.asarray(got)[:2].tolist()}, the sum of its parts {np.asarray(want)[:2].tolist()}")
                # samples: every part from its own part, its own randomness
                N = 2
                tp, _ = T.discover(lambda key: c.sample(key, N))
                rows = np.tile(np.arange(1, tp.S + 1, dtype=np.uint32) * np.uint32(2**27), (tp.S + 1, 1))
                for s in range(tp.S):
                    rows[s + 1, s] += np.uint32(2**26)
                o = jax.vmap(lambda key: c.sample(key, N))(tp.keys(rows))
                ctx.check(list(o) and set(o) == set(names), k + ":names", f"samples are named {sorted(o)}, must be {sorted(names)}")
                ctx.check(all(np.asarray(o[m]).shape == (len(rows), N, 1) and ((np.asarray(o[m]) >= q) & (np.asarray(o[m]) < q + 1)).all() for m, q in zip(names, a) if m in o), k + ":parts", "the samples under a name are not those of the part of that name")
                flat = np.concatenate([np.asarray(o[m]).reshape(len(rows), -1) for m in names], 1)
                moved = (flat[1:] != flat[:1]).sum(1)
                ctx.check((moved <= 1).all(), k + ":independent", f"one draw moves {moved.max()} sampled values")
                ctx.count(states=len(X), transitions=2 * len(X) + len(rows), traces=1)
    # composite of real Gaussians is the Gaussian with the block covariance
    for order in itertools.permutations([(0, 1), (1, 3)]):
        ms = {(0, 1): [0.5], (1, 3): [-1.0, 2.0]}
        cv = {r: covs(r[1] - r[0])[1] for r in order}
        c = Composable([Gaussian(jnp.asarray(ms[r]), jnp.asarray(cv[r])) for r in order], {str(r): r for r in order})
        full = np.zeros((3, 3))
        for r in order:
            full[r[0] : r[1], r[0] : r[1]] = cv[r]
        g = Gaussian(jnp.asarray([0.5, -1.0, 2.0]), jnp.asarray(full))
        Y = positions(3)
        ctx.check(same(jax.vmap(c.log_prob)(Y), jax.vmap(g.log_prob)(Y), 1e-7), "composite-gaussian", "a composite of Gaussians is not the Gaussian with block covariance")
        ctx.count(states=len(Y), transitions=len(Y), traces=1)
    ctx.sample({"last": k})


def large(ctx):
    """many dimensions, variables and parts"""
    for n in (6, 12, 40):
        X = jnp.asarray([[(-2.0, -0.3, 0.4, 1.1)[(a * i + b) % 4] for i in range(n)] for a in (1, 2, 3) for b in range(4)])
        for ln, data in (("quad", {"mu": 0.3}), ("array", jnp.linspace(-1, 1, n)), ("tuple", (2.0, {"k": -1.0}))):
            fn = likes()[ln][0]
            for pn, prior in priors().items():
                w = TemperedPDF(fn, prior, n_dims=n)
                for t in (1.0, 2.0, 37.25, 1e6):
                    got = mc.guard(ctx, f"large-{ln}-{n}:exception", _arg_tempered, w, X, data, t)
                    want = jax.vmap(lambda x: fn(x, data) / t + prior(x, data))(X)
                    ctx.check(got is not None and same(got, want), f"large-{ln}-{pn}-{n}d", f"at T={t} in {n} dimensions: {np.asarray(got).tolist()}, must be {np.asarray(want).tolist()}")
            w = LogPDF(fn, variables=[Variable(f"v{i}", i % 3 == 0) for i in range(n)])
            w2 = jax.tree_util.tree_map(lambda a: a, w)
            ctx.check(describe(w2) == describe(w) and describe(w)[0][1] == n, f"large-declared-{n}", f"{n} variables are declared as {describe(w)}")
            got = mc.guard(ctx, f"large-{ln}-{n}:exception", _arg_plain, w2, X, data)
            ctx.check(got is not None and same(got, jax.vmap(lambda x: fn(x, data))(X)), f"large-{ln}-{n}d", f"in {n} dimensions the wrapper does not give the user's values")
            ctx.count(states=len(X), transitions=13 * len(X), traces=1)
        # Gaussian against its formula, and through its draws
        cov, mean = covs(n)[1] / n, np.linspace(-1, 2, n)
        g = Gaussian(jnp.asarray(mean), jnp.asarray(cov))
        dev = np.asarray(X) - mean
        want = -0.5 * np.einsum("ni,ij,nj->n", dev, np.linalg.inv(cov), dev) - 0.5 * np.linalg.slogdet(2 * np.pi * cov)[1]
        ctx.check(np.allclose(jax.vmap(g.log_prob)(X), want, rtol=1e-6), f"large-gaussian-{n}d", "log-density of a Gaussian is not its formula")
        N = 2
        tp, _ = T.discover(lambda key: g.sample(key, N))
        z0 = T.z_to_bits(0.25)
        rows = np.full((tp.S + 1, tp.S), z0, np.uint32)
        rows[np.arange(1, tp.S + 1), np.arange(tp.S)] = T.z_to_bits(1.25)
        o = np.asarray(jax.vmap(lambda key: g.sample(key, N))(tp.keys(rows)))
        z = T.bits_to_z(rows)
        J = np.stack([(o[1 + s] - o[0]) / (z[1 + s, s] - z[0, s]) for s in range(tp.S)])
        for p in range(N):
            A = J[:, p].T
            ctx.check(np.allclose(A @ A.T, cov, rtol=1e-3, atol=1e-4 * np.abs(cov).max()), f"large-gaussian-{n}d:cov", "samples do not have the covariance given")
            ctx.check(np.allclose(o[0, p] - A @ z[0], mean, atol=1e-3), f"large-gaussian-{n}d:mean", "samples are not centred at the mean")
            own = np.abs(J[:, p]).max(1) > 1e-9
            ctx.check(np.abs(J[own][:, 1 - p]).max() < 1e-9, f"large-gaussian-{n}d:independent", "two sampled points share draws")
        # composite of n parts, of blocks of three, in reverse order
        for rs in ([(i, i + 1) for i in range(n)], [(i, min(i + 3, n)) for i in range(0, n, 3)][::-1], [(0, n - 1), (n - 1, n)]):
            c = Composable([Gaussian(jnp.asarray(mean[a:b]), jnp.eye(b - a) * (1.0 + a)) for a, b in rs], {f"p{a}": (a, b) for a, b in rs})
            var = np.concatenate([np.full(b - a, 1.0 + a) for a, b in sorted(rs)])
            want = (-0.5 * dev**2 / var - 0.5 * np.log(2 * np.pi * var)).sum(1)
            got = mc.guard(ctx, f"large-composite-{n}:exception", lambda: jax.vmap(c.log_prob)(X))
            ctx.check(got is not None and np.allclose(got, want, rtol=1e-7), f"large-composite-{n}-{len(rs)}", f"a composite of {len(rs)} parts in {n} dimensions is not the sum of its parts")
            smp = c.sample(jax.random.PRNGKey(0), 200)
            ctx.check(set(smp) == {f"p{a}" for a, _ in rs} and all(smp[f"p{a}"].shape == (200, b - a) for a, b in rs), f"large-composite-{n}-{len(rs)}:names", "samples of the parts have other names or shapes")
            flat = np.concatenate([np.asarray(smp[f"p{a}"]) for a, _ in rs], 1)
            ctx.check(len(np.unique(np.round((flat - np.concatenate([mean[a:b] for a, b in rs])) / np.sqrt(np.concatenate([np.full(b - a, 1.0 + a) for a, b in rs])), 9))) == flat.size, f"large-composite-{n}-{len(rs)}:distinct", "parts share their randomness")
            ctx.count(states=len(X), transitions=len(X), traces=1)
    ctx.sample({"dimensions": [6, 12, 40]})


PARTS = {n: (f, {"x64": True}) for n, f in (("plain", plain), ("tempered", tempered), ("confusion", confusion), ("declarations", declarations), ("gaussian", gaussian), ("composite", composite), ("large", large))}
PARTS["confusion"] = (confusion, {})
