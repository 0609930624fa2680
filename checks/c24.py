"""C24: Adam optimization stays in bounds and treats each chain alone."""
import contextlib
import io
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
import tape as T
from flowMC.resource.buffers import Buffer
from flowMC.strategy.optimization import AdamOptimization

LEVEL = "model_checking"
BOUNDS = ("every (objective, bounds, dimension, start, number of steps 1-4, noise level) of the stated grids with every combination of per-step noise draws on a grid with "
          "both extremes (one chain per combination); every plain-Adam run up to 12 steps against a reference implementation; every pair of chains with one start or one "
          "chain's randomness changed; every bounds shape up to 3x3; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["at least one optimization step", "the log-density is finite with finite gradient on the path"]

INF = np.inf
quiet = lambda: contextlib.redirect_stdout(io.StringIO())


def logps(d):
    c = jnp.linspace(-0.5, 1.5, d)
    return {
        "quadratic": lambda x, data: -jnp.sum((x - c - data["shift"]) ** 2 * jnp.arange(1, d + 1)),
        "linear": lambda x, data: jnp.sum(x * (1 + data["shift"])),
        "cosine": lambda x, data: jnp.sum(jnp.cos(2 * x + data["shift"])) - 0.1 * jnp.sum(x**4) + 0.3 * x[0] * x[-1],
    }


def bounds(d):
    out = {"none": [[-INF, INF]], "box": [[-1.0, 0.75]], "lower": [[0.25, INF]], "point": [[0.5, 0.5]]}
    if d > 1:
        out["per-dim"] = [[-1.0 + i, 0.5 + i] for i in range(d)]
        out["mixed"] = [[-INF, -0.2], [0.1, 0.4], [0.0, INF]][:d]
    return {k: jnp.asarray(v) for k, v in out.items()}


def starts(d):
    lv = (-3.0, -1.0, -0.2, 0.5, 0.75, 4.0) if d < 3 else (-3.0, 0.25, 4.0)
    return np.array(list(itertools.product(lv, repeat=d)))


def inside(x, b):
    b = np.broadcast_to(np.asarray(b), (x.shape[1], 2))
    return ((x >= b[:, 0]) & (x <= b[:, 1])).all(1)


def reference(grad, x, n, lr, b):
    """plain Adam (Kingma and Ba, default constants) with projection after every step"""
    lo, hi = np.broadcast_to(np.asarray(b), (x.shape[1], 2)).T
    m = np.zeros_like(x)
    v = np.zeros_like(x)
    out = []
    for t in range(1, n + 1):
        g = grad(x)
        m = 0.9 * m + 0.1 * g
        v = 0.999 * v + 0.001 * g * g
        x = x - lr * (m / (1 - 0.9**t)) / (np.sqrt(v / (1 - 0.999**t)) + 1e-8)
        x = np.clip(x, lo, hi)
        out.append(x)
    return out


def run(lp, key, X, data, jit=False, **kw):
    s = AdamOptimization(lp, **kw)
    # op by op: the strategy's closures would be compiled again at every call
    with quiet(), jax.disable_jit(not jit):
        return s.optimize(key, lambda x, dt: -lp(x, dt), jnp.asarray(X), data)


def plain(d):
    def part(ctx):
        X = starts(d)
        N = 12 if not ctx.thorough else 40
        data = {"shift": 0.3}
        far = {"none": bounds(d)["none"], "far": jnp.array([[-2.0e5, 3.0e5]])}
        for (ln, lp), (bn, b), lr in [*itertools.product(logps(d).items(), bounds(d).items(), (0.01, 0.3, 2.0)), *itertools.product(logps(d).items(), far.items(), (1.0e5,))]:
            g = jax.jit(jax.vmap(jax.grad(lambda x: -lp(x, data))))
            ref = reference(lambda x: np.asarray(g(jnp.asarray(x))), X, N, lr, b)
            for n in (1, 2, 5, N):
                if not ctx.thorough and n in (2, 5) and (lr == 2.0 or bn == "point"):
                    continue
                k = f"plain-{d}d-{ln}-{bn}-lr{lr}-n{n}"
                r = mc.guard(ctx, k + ":exception", run, lp, jax.random.PRNGKey(ctx.seed), X, data, n_steps=n, learning_rate=lr, noise_level=0.0, bounds=b)
                if r is None:
                    continue
                x, l = np.asarray(r[1]), np.asarray(r[2])
                want = ref[n - 1]
                # single steps are exact; later ones may differ by rounding where the gradient crosses zero
                bad = ~(np.abs(x - want) <= 1e-6 * (1 + np.abs(want))).all(1)
                if bad.any():
                    i = int(np.argmax(bad))
                    ctx.violation(k, f"from {X[i].tolist()}, {n} noiseless steps give {x[i].tolist()}; Adam with projection gives {want[i].tolist()}")
                ctx.check(inside(x, b).all(), k + ":bounds", f"a position outside the bounds {np.asarray(b).tolist()} is returned")
                wl = np.asarray(jax.vmap(lambda q: lp(q, data))(jnp.asarray(x)))
                ctx.check(l.shape == (len(X),) and np.allclose(l, wl, rtol=1e-9, atol=1e-12), k + ":logp", "the log-densities returned are not those of the positions returned")
                ctx.count(states=len(X), transitions=n * len(X), traces=len(X))
        ctx.sample({"dimension": d, "starts": len(X), "last": k})
    return part


def noise(d):
    """Every noise outcome: one chain per (start, draws)."""
    def part(ctx):
        for n, (ln, lp), level in itertools.product((1, 2, 3) + ((4,) if ctx.thorough else ()), logps(d).items(), (10, 0.5)):
            if not ctx.thorough and level == 0.5 and n != 2:
                continue
            Q = np.concatenate([[T.BITS0, T.BITSMAX], T.quantiles(5 if n < 3 else 3)]).astype(np.uint32)
            combos = np.array(list(itertools.product(Q, repeat=n)), np.uint32)
            X0 = starts(d)
            X0 = X0[:: max(1, len(X0) // (6 if n < 3 else 3))]
            X = np.repeat(X0, len(combos), 0)
            data = {"shift": -0.2}
            rec = []
            for bn, b in bounds(d).items():
                if bn == "none":
                    continue
                for lr in (0.3, 5.0):
                    kw = dict(n_steps=n, learning_rate=lr, noise_level=level, bounds=b)
                    if not rec:
                        tp0 = T.Tape(record=rec)
                        run(lp, tp0.key(), X, data, **kw)
                        jax.effects_barrier()
                        ids = []
                        for i, m in rec:
                            if i not in dict(ids):
                                ids.append((i, m))
                        tp = T.Tape(slots=ids)
                        # recording order is step-major: slot s belongs to chain s % C
                        word = np.zeros(tp.S, np.uint32)
                        C = len(X)
                        q = 0
                        for s, (i, m) in enumerate(tp.slots):
                            word[q : q + m] = combos[(s % C) % len(combos), min(n - 1, s // C)]
                            q += m
                        ctx.bump("noise draws", tp.S)
                    k = f"noise-{d}d-{ln}-n{n}-{bn}-lr{lr}-level{level}"
                    r = mc.guard(ctx, k + ":exception", run, lp, tp.key(word), X, data, **kw)
                    if r is None:
                        continue
                    x = np.asarray(r[1])
                    ok = inside(x, b) & np.isfinite(x).all(1)
                    if not ok.all():
                        i = int(np.argmin(ok))
                        ctx.violation(k, f"from {X[i].tolist()} the chain ends at {x[i].tolist()}, outside the bounds {np.asarray(b).tolist()}")
                    wl = np.asarray(jax.vmap(lambda q: lp(q, data))(jnp.asarray(x)))
                    ctx.check(np.allclose(np.asarray(r[2]), wl, rtol=1e-9, atol=1e-12), k + ":logp", "the log-densities returned are not those of the positions returned")
                    ctx.count(states=len(X), transitions=n * len(X), traces=len(X))
        ctx.sample({"dimension": d, "chains": len(X), "draw alphabet": Q.tolist(), "last": k})
    return part


def chains(ctx):
    """A chain depends on its own start and its own randomness only."""
    d = 2
    lp = logps(d)["cosine"]
    data = {"shift": 0.1}
    for C, (bn, b), level in itertools.product((2, 3, 4), bounds(d).items(), (0.0, 10)):
        if not ctx.thorough and (bn not in ("none", "mixed") or C == 4 and level == 0 and bn != "none"):
            continue
        X = starts(d)[:: max(1, 36 // C)][:C] + 0.01
        kw = dict(n_steps=4, learning_rate=0.2, noise_level=level, bounds=b)
        key = jax.random.PRNGKey(3 + ctx.seed)
        base = np.asarray(run(lp, key, X, data, **kw)[1])
        k = f"chains-C{C}-{bn}-noise{level}"
        for c in range(C):
            Y = X.copy()
            Y[c] = [0.33, -0.44]
            y = np.asarray(run(lp, key, Y, data, **kw)[1])
            oth = [i for i in range(C) if i != c]
            ctx.check(np.allclose(y[oth], base[oth], rtol=0, atol=1e-12), k, f"changing the start of chain {c} changes another chain")
            if bn == "none":
                ctx.check(not np.array_equal(y[c], base[c]), k + ":start", f"chain {c} does not depend on its start")
            # a chain's result is that of any other chain started there, without noise
            if level == 0:
                Z = X[::-1].copy()
                z = np.asarray(run(lp, key, Z, data, **kw)[1])
                ctx.check(np.allclose(z[::-1], base, rtol=0, atol=1e-12), k + ":order", "the result of a chain depends on its place")
            ctx.count(states=C, transitions=4 * C, traces=1)
        if level:
            same = np.asarray(run(lp, key, np.repeat(X[:1], C, 0), data, **kw)[1])
            if bn == "none":
                ctx.check(len({tuple(r) for r in same.tolist()}) == C, k + ":noise", "chains with the same start share their noise")
            again = np.asarray(run(lp, key, X, data, **kw)[1])
            ctx.check(np.array_equal(again, base), k + ":repeat", "the same key gives another result")
        # draws: each influences one chain
        tp, _ = T.discover(lambda q: run(lp, q, X, data, **kw)[1])
        b0 = np.arange(tp.S, dtype=np.uint32) * np.uint32(2654435761)
        if level and bn in ("none", "mixed") and (C == 2 or ctx.thorough):
            r0 = np.asarray(run(lp, tp.key(b0), X, data, **kw)[1])
            hit = np.zeros((tp.S, C), bool)
            for s in range(tp.S):
                w = b0.copy()
                w[s] ^= np.uint32(0x8F000000)
                hit[s] = (np.asarray(run(lp, tp.key(w), X, data, **kw)[1]) != r0).any(1)
            ctx.check((hit.sum(1) <= 1).all(), k + ":shared-noise", f"one draw moves several chains: {hit.astype(int).tolist()}")
            if bn == "none":
                ctx.check(hit.any(0).all(), k + ":no-noise", "a chain is not influenced by any draw although the noise is on")
            ctx.count(states=tp.S, transitions=tp.S * C, traces=tp.S)
    ctx.sample({"chains": C, "last": k})


def errors(ctx):
    """Every bounds shape: accepted exactly when compatible."""
    lp = lambda x, data: -jnp.sum(x**2)
    shapes = [()] + [(i,) for i in range(4)] + [(i, j) for i in range(4) for j in range(4)] + [(1, 1, 2), (1, 2, 1)]
    for d, sh in itertools.product((1, 2, 3), shapes):
        b = np.zeros(sh)
        if len(sh) == 2 and sh[1] == 2:
            b[:, 0], b[:, 1] = -1, 1
        good = len(sh) == 2 and sh[1] == 2 and sh[0] in (1, d)
        for how in ("optimize", "call"):
            k = f"shape-{d}d-{sh}-{how}"
            X = jnp.full((2, d), 3.0)
            try:
                s = AdamOptimization(lp, n_steps=2, bounds=jnp.asarray(b))
                with quiet():
                    x = s.optimize(jax.random.PRNGKey(0), lambda q, dt: -lp(q, dt), X, {})[1] if how == "optimize" else s(jax.random.PRNGKey(0), {}, X, {})[2]
                ctx.check(good, k, f"bounds of shape {sh} are accepted in {d} dimensions")
                ctx.check(not good or (x.shape == (2, d) and inside(np.asarray(x), b).all()), k + ":bounds", f"positions {np.asarray(x).tolist()} outside the bounds")
            except ValueError as e:
                ctx.check(not good, k, f"bounds of shape {sh} are rejected in {d} dimensions: {str(e)[:100]}")
            except Exception as e:
                ctx.violation(k, f"bounds of shape {sh} in {d} dimensions raise {type(e).__name__}, must {'work' if good else 'raise ValueError'}")
            ctx.count(states=1, transitions=1, traces=1)
    ctx.sample({"shapes": [list(s) for s in shapes]})


def call(ctx):
    """The strategy call: objective is the negative log-density, resources pass through, key is fresh."""
    for d, C, (bn, b), seed in itertools.product((1, 2), (1, 3), bounds(2).items(), (0, 1) if ctx.thorough else (0,)):
        if b.shape[0] not in (1, d):
            continue
        for ln, lp in logps(d).items():
            if not ctx.thorough and ln == "linear":
                continue
            data = {"shift": 0.2}
            X = jnp.asarray(starts(d)[:C] + 0.05)
            res = {"b": Buffer("b", (2, 2)), "other": object()}
            before = dict(res)
            bdata = np.array(res["b"].data)
            s = AdamOptimization(lp, n_steps=4, learning_rate=0.1, noise_level=0.3, bounds=b)
            key = jax.random.PRNGKey(seed + ctx.seed)
            k = f"call-{d}d-C{C}-{bn}-{ln}"

            def go():
                with quiet():
                    return s(key, res, X, data), s.optimize(key, lambda q, dt: -lp(q, dt), X, data)

            r = mc.guard(ctx, k + ":exception", go)
            if r is None:
                continue
            (k1, r1, x1), (k2, x2, l2) = r
            ctx.check(np.array_equal(x1, x2), k, "calling the strategy and optimizing the negative log-density give different positions")
            ctx.check(r1 == before and np.array_equal(r1["b"].data, bdata), k + ":resources", "the optimization changes resources")
            ctx.check(not np.array_equal(np.asarray(k1), np.asarray(key)), k + ":key", "the key handed on is the one received")
            ctx.check(np.array_equal(np.asarray(X), starts(d)[:C] + 0.05), k + ":input", "the caller's positions are modified")
            ctx.count(states=1, transitions=2, traces=1)
    ctx.sample({"last": k})


def large(ctx):
    """Long runs, many chains, many dimensions; with noise, the randomness of each chain stays its own"""
    for d, C, n in ((6, 40, 70), (2, 130, 20), (20, 3, 300)):
        X = np.array([[(-3.0, -1.0, -0.2, 0.5, 0.75, 4.0)[(a * i + b) % 6] for i in range(d)] for a in range(1, 23) for b in range(6)])[:C] + 0.003 * np.arange(C)[:, None]
        data = {"shift": 0.3}
        lp = logps(d)["quadratic"]
        g = jax.jit(jax.vmap(jax.grad(lambda x: -lp(x, data))))
        for bn, b in {"none": [[-INF, INF]], "box": [[-1.0, 0.75]], "per-dim": [[-1.0 + i / d, 0.5 + i / d] for i in range(d)]}.items():
            b = jnp.asarray(b)
            ref = reference(lambda x: np.asarray(g(jnp.asarray(x))), X, n, 0.01, b)
            for level in (0.0, 10.0):
                k = f"large-{d}d-C{C}-n{n}-{bn}-noise{level}"
                kw = dict(n_steps=n, learning_rate=0.01, noise_level=level, bounds=b)
                r = mc.guard(ctx, k + ":exception", run, lp, jax.random.PRNGKey(ctx.seed), X, data, jit=True, **kw)
                if r is None:
                    continue
                x, l = np.asarray(r[1]), np.asarray(r[2])
                ctx.check(x.shape == X.shape and inside(x, b).all(), k + ":bounds", f"a position outside the bounds {np.asarray(b).tolist()} is returned")
                wl = np.asarray(jax.vmap(lambda q: lp(q, data))(jnp.asarray(x)))
                ctx.check(l.shape == (C,) and np.allclose(l, wl, rtol=1e-9, atol=1e-12), k + ":logp", "the log-densities returned are not those of the positions returned")
                if level == 0:
                    bad = ~(np.abs(x - ref[-1]) <= 1e-6 * (1 + np.abs(ref[-1]))).all(1)
                    ctx.check(not bad.any(), k, f"{int(bad.sum())} of {C} chains are not where Adam with projection takes them after {n} noiseless steps")
                elif bn == "none":
                    same = np.asarray(run(lp, jax.random.PRNGKey(ctx.seed), np.repeat(X[:1], C, 0), data, jit=True, **kw)[1])
                    ctx.check(len({tuple(q) for q in same.tolist()}) == C, k + ":noise", f"of {C} chains with the same start some share their noise")
                    Y = X.copy()
                    Y[C // 2] += 0.5
                    y = np.asarray(run(lp, jax.random.PRNGKey(ctx.seed), Y, data, jit=True, **kw)[1])
                    moved = np.abs(y - x).max(1) > 1e-9
                    ctx.check(moved[C // 2] and moved.sum() == 1, k + ":own", f"changing the start of chain {C // 2} changes the chains {np.argwhere(moved)[:, 0].tolist()}")
                ctx.count(states=C, transitions=n * C, traces=C)
    ctx.sample({"last": k})


PARTS = {"large": (large, {"x64": True}), "plain1": (plain(1), {"x64": True}), "plain2": (plain(2), {"x64": True}), "plain3": (plain(3), {"x64": True}),
         "noise1": (noise(1), {"x64": True}), "noise2": (noise(2), {"x64": True}), "chains": (chains, {"x64": True}),
         "errors": (errors, {}), "call": (call, {"x64": True})}
