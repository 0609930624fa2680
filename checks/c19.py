"""C19: flow matching - density, samples and training pairs agree."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import flowlib
import fmlib
import mc
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import CondOTScheduler, Path, Solver

LEVEL = "model_checking"
BOUNDS = ("velocity networks (zero, linear contracting/rotating/expanding, bent non-linear, trained) in 1-3 dimensions x whitening statistics: for every combination "
          "of draws on a grid the density implied by the executed map from draws to samples is compared with log_prob; every (source, data, time) triple of a grid "
          "through the path; every (permutation, batch) a training epoch hands to the network, read off the gradients of a linear network; scale equivariance in single precision; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["64-bit floats in the harness", "velocity fields mild enough for the default step (tolerance 5e-3 in log-density)"]


def bend_net(m, amount, phase):
    import stubs

    return eqx.tree_at(lambda q: q.solver.model, m, stubs.bend(m.solver.model, amount, phase))


def lin(n, A, b, c):
    """dx/dt = A x + b + c t"""
    m = fmlib.linear(n)
    W = jnp.concatenate([jnp.asarray(A, float), jnp.asarray(c, float)[:, None]], 1)
    last = lambda q: (q.solver.model.layers[-1].weight, q.solver.model.layers[-1].bias)
    return eqx.tree_at(last, m, (W, jnp.asarray(b, float)))


def rot(n):
    A = np.zeros((n, n))
    if n > 1:
        A[0, 1], A[1, 0] = 0.8, -0.8
    return A


def timed(m):
    """a network whose divergence varies strongly with time"""
    w = lambda q: q.solver.model.layers[0].weight
    return eqx.tree_at(w, m, w(m).at[:, -1].add(jnp.linspace(-4.0, 4.0, w(m).shape[0])))


def nets(n):
    I = np.eye(n)
    v = np.linspace(-0.5, 0.7, n)
    return {
        "zero": lin(n, 0 * I, 0 * v, 0 * v),
        "shift": lin(n, 0 * I, 2 * v + 1, v - 1),
        "contract": lin(n, -0.9 * I + rot(n), v, v),
        "expand": lin(n, np.diag(np.linspace(0.3, 0.9, n)) + rot(n), -v, 2 * v),
        "stiff": lin(n, -4.0 * I + rot(n), v, 3 * v),
        "shear": lin(n, np.triu(np.ones((n, n)), 1) - 0.3 * I, v, 0 * v),
        "bent": bend_net(fmlib.model(n), 0.25, 0.0),
        "timed": timed(bend_net(fmlib.model(n), 0.35, 1.0)),
        "bent2": bend_net(fmlib.model(n), 0.35, 2.0),
    }


def whitenings(n):
    A = np.random.default_rng(3).normal(size=(n, n))
    out = {
        "unit": (None, None),
        "scaled": (jnp.linspace(1.0, -2.0, n), jnp.diag(jnp.linspace(0.3, 4.0, n))),
        "dense": (jnp.linspace(-3.0, 5.0, n), jnp.asarray(A @ A.T + 0.5 * np.eye(n)) * 2.0),
        "extreme": (jnp.linspace(-0.001, 9e5, n), jnp.diag(jnp.logspace(-11, 11, n))),
    }
    if n == 1:
        out["scalar"] = (jnp.array([0.4]), jnp.array(2.5))
    return out


def zgrid(n):
    return flowlib.grid(n, {1: tuple(np.linspace(-2.6, 2.6, 27)), 2: (-2.1, -0.9, 0.13, 0.7, 1.6), 3: (-1.9, 0.2, 1.3)}[n])


def density(n):
    def part(ctx):
        for (nn, m), (wn, (mu, S)) in itertools.product(nets(n).items(), whitenings(n).items()):
            if wn == "scalar" and nn not in ("bent", "contract"):
                continue
            f = type(m)(m.solver, m.path, mu, S)
            k = f"n{n}-{nn}-{wn}"
            mc.guard(ctx, k + ":exception", flowlib.check_density, ctx, k, f, 2, n, zgrid(n), tol=5e-3)
        m = nets(n)["bent"]
        mc.guard(ctx, f"n{n}-id:exception", flowlib.check_identical, ctx, f"n{n}-identical", m, 4, n, zgrid(n)[::3])
        # solver without whitening: sample / log_prob agree too
        z = jnp.asarray(zgrid(n)[:3])
        a = np.asarray(jax.vmap(type(m)(m.solver, m.path).log_prob)(z)).reshape(-1)
        b = np.asarray(jax.vmap(m.solver.log_prob)(z)).reshape(-1)
        ctx.check(np.allclose(a, b, atol=1e-9), f"n{n}:solver", "unit whitening changes the solver's log-density")
        ctx.sample({"last": k, "draw combinations": len(zgrid(n))})
    return part


def big(ctx):
    """many dimensions; many points at once"""
    for n in (5, 8):
        Z = np.array([[(-1.9, -0.6, 0.2, 0.8, 1.3)[(a * i + b) % 5] for i in range(n)] for a in (0, 1, 2) for b in range(5)])
        for nn, wn in (("contract", "unit"), ("shear", "dense"), ("bent", "scaled"), ("timed", "extreme")):
            m = nets(n)[nn]
            mu, S = whitenings(n)[wn]
            f = type(m)(m.solver, m.path, mu, S)
            mc.guard(ctx, f"big-n{n}-{nn}-{wn}:exception", flowlib.check_density, ctx, f"big-n{n}-{nn}-{wn}", f, 2, n, Z, tol=5e-3)
    for n, N in ((2, 25), (5, 9)):
        m = nets(n)["bent"]
        mc.guard(ctx, f"big-n{n}-N{N}:exception", flowlib.check_identical, ctx, f"big-n{n}-N{N}-identical", m, N, n, np.array([[(-1.9, 0.2, 1.3)[(i + b) % 3] for i in range(n)] for b in range(3)]))
        out = m.sample(jax.random.PRNGKey(ctx.seed), 300)
        ctx.check(out.shape == (300, n) and len(np.unique(np.asarray(out), axis=0)) == 300, f"big-n{n}:shape", f"300 samples have shape {out.shape}, or repeat")
    ctx.sample({"dimensions": [5, 8]})


def exact(ctx):
    """Linear constant-coefficient fields: the sample and its density are known in closed form."""
    for n, (a, b) in itertools.product((1, 2, 3), ((-1.1, 0.4), (0.0, -2.0), (0.8, 1.0))):
        f = lin(n, a * np.eye(n), b * np.ones(n), np.zeros(n))
        s = np.exp(a)
        mu = b * ((s - 1) / a if a else 1.0)
        X = zgrid(n) * s + mu
        want = (-0.5 * ((X - mu) / s) ** 2 - 0.5 * np.log(2 * np.pi) - np.log(s)).sum(1)
        got = np.asarray(jax.jit(jax.vmap(f.log_prob))(jnp.asarray(X))).reshape(len(X))
        bad = np.abs(got - want) > 2e-3
        ctx.check(not bad.any(), f"exact-n{n}-a{a}-b{b}", f"log_prob at {X[bad.argmax()].tolist()} is {got[bad.argmax()]}, exactly {want[bad.argmax()]}")
        ctx.count(states=len(X), transitions=len(X), traces=1)


def path(ctx):
    tt = np.linspace(0, 1, 9 if not ctx.thorough else 33)
    al = (-2.0, -0.3, 0.0, 1.0, 7.0)
    for sched in (CondOTScheduler(), fmlib.Trig()):
        p = Path(sched)
        name = type(sched).__name__
        f = lambda x0, x1, t: p.sample(x0, x1, t)
        for n in (1, 2):
            x0 = jnp.asarray(flowlib.grid(n, al))
            g = jax.jit(jax.vmap(jax.vmap(jax.vmap(f, (None, None, 0)), (None, 0, None)), (0, None, None)))
            jv = jax.jit(jax.vmap(jax.vmap(jax.vmap(lambda a, b, t: jax.jvp(lambda s: f(a, b, s)[0], (t,), (1.0,))[1], (None, None, 0)), (None, 0, None)), (0, None, None)))
            xt, dx = [np.asarray(v) for v in g(x0, x0, jnp.asarray(tt))]
            true = np.asarray(jv(x0, x0, jnp.asarray(tt)))
            ctx.check(np.allclose(xt[:, :, 0], np.asarray(x0)[:, None], atol=1e-12), f"{name}-n{n}:start", "the path does not start at the source point")
            ctx.check(np.allclose(xt[:, :, -1], np.asarray(x0)[None], atol=1e-12), f"{name}-n{n}:end", "the path does not end at the data point")
            bad = np.abs(dx - true).max(-1) > 1e-9
            ctx.check(not bad.any(), f"{name}-n{n}:velocity", "the reported velocity is not the derivative of the path")
            if isinstance(sched, CondOTScheduler):
                lin_ = (1 - tt)[None, None, :, None] * np.asarray(x0)[:, None, None] + tt[None, None, :, None] * np.asarray(x0)[None, :, None]
                ctx.check(np.allclose(xt, lin_, atol=1e-12), f"{name}-n{n}:straight", "the optimal-transport path is not the straight line")
            ctx.count(states=xt.size, transitions=xt.size, traces=1)
    ctx.sample({"times": tt})


def pairs(ctx):
    """What one training step receives, from the gradient of a zero linear network:
    d/db = -2/(B d) sum dx, d/dW = -2/(B d) sum dx (x_t, t)^T."""
    for n, N, sched in itertools.product((1, 2, 3), (3, 4), (None, fmlib.Trig())):
        rng = np.random.default_rng(n + N)
        x0 = rng.normal(size=(N, n))
        x1 = rng.normal(size=(N, n)) * np.linspace(0.5, 3, n) + np.linspace(2, -4, n)
        t = np.linspace(0.0, 1.0, N)[:, None]
        mu, std = x1.mean(0), np.sqrt(np.diag(np.atleast_2d(np.cov(x1.T))))
        p = Path(sched or CondOTScheduler())
        for B in (1, 2, N, N + 2):
            m = fmlib.linear(n, scheduler=sched)
            log = []
            o = fmlib.spy(log)
            k = f"n{n}-N{N}-B{B}-{type(p.scheduler).__name__}"
            r = mc.guard(ctx, k + ":exception", fmlib.train, m, jax.random.PRNGKey(ctx.seed), (jnp.asarray(x0), jnp.asarray(x1), jnp.asarray(t)), o, o.init(), 2, B)
            if r is None:
                continue
            # expected contribution of every example
            xt, dx = [np.asarray(v) for v in p.sample(x0, (x1 - mu) / std, t)]
            z = np.concatenate([xt, t], 1)
            nb = max(1, N // B)
            size = B if N // B else N
            ctx.check(len(log) == 2 * nb, k + ":steps", f"{len(log)} optimizer steps in two epochs, must be {2 * nb}")
            subsets = list(itertools.combinations(range(N), size))
            cand = [(-2 / (size * n)) * (dx[list(s)].T @ z[list(s)]) for s in subsets]
            candb = [(-2 / (size * n)) * dx[list(s)].sum(0) for s in subsets]
            for e in range(2):
                used = []
                for W, b in log[e * nb : (e + 1) * nb]:
                    hit = [s for s, cw, cb in zip(subsets, cand, candb) if np.allclose(W, cw, atol=1e-9) and np.allclose(b, cb, atol=1e-9)]
                    if ctx.check(len(hit) == 1, k + ":batch", f"a training step in epoch {e} does not receive {size} whitened examples with matching positions, times and velocities"):
                        used += hit[0]
                ctx.check(len(set(used)) == len(used), k + ":repeat", f"examples {used} are used in one epoch")
            ctx.count(states=len(subsets), transitions=len(log), traces=1)
    ctx.sample({"last": k, "steps": len(log)})


def trained(ctx):
    """density and samples agree after real training, with the whitening of the training data"""
    from flowMC.resource.optimizer import Optimizer

    for n in (1, 2):
        N = 24
        rng = np.random.default_rng(0)
        x1 = rng.normal(size=(N, n)) * np.linspace(0.5, 3, n) + np.linspace(2, -4, n)
        d = (jnp.asarray(rng.normal(size=(N, n))), jnp.asarray(x1), jnp.asarray(rng.uniform(size=(N, 1))))
        m = fmlib.model(n)
        st = {}
        frontier = [((), m, None)]
        for level in range(2 if not ctx.thorough else 3):
            nxt = []
            for h, q, s in frontier:
                for ep, B in ((1, N), (4, 8)):
                    o = Optimizer(m, learning_rate=0.05)
                    _, q2, s2, _ = fmlib.train(q, jax.random.PRNGKey(1), d, o.optim, o.optim_state if s is None else s, ep, B)
                    k = f"trained-n{n}-{h + ((ep, B),)}"
                    mc.guard(ctx, k + ":exception", flowlib.check_density, ctx, k, q2, 2, n, zgrid(n), tol=5e-3)
                    ctx.check(np.allclose(q2.data_mean, x1.mean(0)) and np.allclose(q2.data_cov, np.atleast_2d(np.cov(x1.T))), k + ":stats", "whitening statistics are not those of the training data")
                    nxt.append((h + ((ep, B),), q2, s2))
            frontier = nxt
    ctx.sample({"last": k})


def scales(ctx):
    """In single precision: rescaling the data rescales the samples and shifts the log-density by the logarithm of the scale."""
    for n, nn in ((2, "bent"), (7, "contract")):
        net = nets(n)[nn]
        C = np.diag(np.linspace(0.5, 2.0, n))
        build = lambda s: type(net)(net.solver, net.path, jnp.zeros(n), jnp.asarray(C * s * s, jnp.float32))
        Z = np.array([[(-1.9, -0.6, 0.2, 0.8, 1.3)[(a * i + b) % 5] for i in range(n)] for a in (0, 1, 2) for b in range(5)], np.float32)
        key = jax.random.PRNGKey(ctx.seed + 5)
        ref = np.asarray(jax.vmap(build(1.0).log_prob)(jnp.asarray(Z)), np.float64).reshape(-1)
        sref = np.asarray(build(1.0).sample(key, 9), np.float64)
        for s in (1e-10, 1e-8, 1e-3, 1e4, 1e9):
            k = f"scale-n{n}-{nn}-{s:g}"
            m = build(s)
            r = mc.guard(ctx, k + ":exception", lambda: (np.asarray(jax.vmap(m.log_prob)(jnp.asarray(Z * np.float32(s))), np.float64).reshape(-1), np.asarray(m.sample(key, 9), np.float64) / s))
            if r is None:
                continue
            want = ref - n * np.log(s)
            bad = ~(np.abs(r[0] - want) <= 5e-3 * (1 + np.abs(ref)) + 1e-4 * n * abs(np.log(s)))
            i = int(np.argmax(bad))
            ctx.check(not bad.any(), k + ":density", f"with every coordinate scaled by {s:g} the log-density at {(Z[i] * s).tolist()} is {r[0][i]}, must be {want[i]}")
            ctx.check(np.allclose(r[1], sref, rtol=2e-3, atol=2e-3), k + ":sample", f"with every coordinate scaled by {s:g} the samples are not scaled by it")
            ctx.count(states=1, transitions=len(Z) + 9, traces=len(Z))
    ctx.sample({"last": k})


PARTS = {f"density{n}": (density(n), {"x64": True}) for n in (1, 2, 3)}
PARTS["big"] = (big, {"x64": True})
PARTS.update({"exact": (exact, {"x64": True}), "path": (path, {"x64": True}), "pairs": (pairs, {"x64": True}), "trained": (trained, {"x64": True})})
PARTS["scales"] = (scales, {})
