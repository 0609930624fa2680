"""C18: a flow's log-density is the density of its own samples."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import flowlib
import mc
import stubs
from flowMC.resource.model.common import Distribution, Gaussian
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline

LEVEL = "model_checking"
BOUNDS = ("both flows, 1-3 dimensions, all combinations of base distribution (default, shifted dense Gaussian, learnable Gaussian, a non-Gaussian one), whitening "
          "statistics (identity, shifted and scaled, dense) and parameter states (fresh, bent, every training history up to a depth); for every combination of "
          "draws on a grid the density implied by the executed map from draws to samples is compared with log_prob; every draw's influence on every sampled point; scale equivariance in single precision over 19 orders of magnitude in 2 and 7 dimensions; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["64-bit floats in the harness", "Jacobians by differences of the real sample() under controlled draws; tolerance 2e-3 in log-density"]


class Logistic(Distribution):
    """independent logistic coordinates with location and scale"""

    loc: jax.Array
    s: float = eqx.field(static=True)

    def __init__(self, loc, s):
        self.loc, self.s = jnp.asarray(loc, float), s

    def log_prob(self, x):
        t = (x - self.loc) / self.s
        return jnp.sum(-t - 2 * jnp.log1p(jnp.exp(-t)) - jnp.log(self.s))

    def sample(self, rng_key, n_samples):
        u = jax.random.uniform(rng_key, (n_samples, self.loc.shape[0]))
        return self.loc + self.s * (jnp.log(u) - jnp.log1p(-u))


def spd(n, seed):
    A = np.random.default_rng(seed).normal(size=(n, n))
    return jnp.asarray(A @ A.T + 0.5 * np.eye(n))


def bases(n):
    return {
        "default": None,
        "dense": Gaussian(jnp.linspace(-0.7, 0.9, n), spd(n, 1)),
        "learnable": Gaussian(jnp.linspace(0.4, -0.5, n), spd(n, 2), learnable=True),
        "logistic": Logistic(np.linspace(0.2, 0.6, n), 0.7),
    }


def whitenings(n):
    return {
        "unit": {},
        "scaled": {"data_mean": jnp.linspace(1.0, -2.0, n), "data_cov": jnp.diag(jnp.linspace(0.3, 4.0, n))},
        "dense": {"data_mean": jnp.linspace(-3.0, 5.0, n), "data_cov": spd(n, 3) * 2.0},
        "extreme": {"data_mean": jnp.linspace(-0.001, 9e5, n), "data_cov": jnp.diag(jnp.logspace(-11, 11, n))},
    }


def make(kind, n, **kw):
    if kind == "rq":
        return MaskedCouplingRQSpline(n, 2, [4], 3, jax.random.PRNGKey(2), (-3.0, 3.0), **kw)
    return RealNVP(n, 2, 5, jax.random.PRNGKey(2), **kw)


def zgrid(n):
    return flowlib.grid(n, {1: tuple(np.linspace(-2.6, 2.6, 27)), 2: (-2.1, -0.9, 0.13, 0.7, 1.6), 3: (-1.9, 0.2, 1.3)}[n])


def run(ctx, k, m, n, pts=2):
    flowlib.check_density(ctx, k, m, pts, n, zgrid(n))


def combos(kind, n):
    def part(ctx):
        for (bn, b), (wn, w) in itertools.product(bases(n).items(), whitenings(n).items()):
            kw = dict(w)
            if b is not None:
                kw["base_dist"] = b
            base = make(kind, n, **kw)
            for sn in ("fresh", "bent") if not ctx.thorough else ("fresh", "bent", "bent2", "bent3"):
                if not ctx.thorough and sn == "fresh" and wn == "dense":
                    continue
                m = base if sn == "fresh" else stubs.bend(base, 0.4, {"bent": 0.0, "bent2": 1.0, "bent3": 2.5}[sn])
                k = f"{kind}-n{n}-{bn}-{wn}-{sn}"
                mc.guard(ctx, k + ":exception", run, ctx, k, m, n)
        ctx.sample({"last": k, "draw combinations": len(zgrid(n))})
    return part


def independence(kind):
    def part(ctx):
        for n, N in itertools.product((1, 2, 3), (1, 2, 5)):
            m = stubs.bend(make(kind, n, **whitenings(n)["scaled"], base_dist=bases(n)["dense"]), 0.4)
            k = f"{kind}-n{n}-N{N}"
            tp, hit = flowlib.draw_map(m, N, n)
            ctx.check((hit.sum(1) <= 1).all() and (hit.sum(0) == n).all(), k + ":independent", f"influence of draws on points is {hit.astype(int).tolist()}")
            flowlib.check_identical(ctx, k, m, N, n, zgrid(n)[::3])
            out = m.sample(jax.random.PRNGKey(ctx.seed), N)
            ctx.check(out.shape == (N, n), k + ":shape", f"{N} samples have shape {out.shape}")
            ctx.count(states=hit.size, traces=1)
        ctx.sample({"last": k, "draws": tp.S})
    return part


def big(kind):
    """many dimensions, layers and points"""
    def part(ctx):
        for n, L in ((5, 5), (9, 3)):
            Z = np.array([[(-1.9, -0.6, 0.2, 0.8, 1.3)[(a * i + b) % 5] for i in range(n)] for a in (0, 1, 2) for b in range(5)])
            for bn, wn in (("default", "unit"), ("dense", "dense"), ("learnable", "scaled"), ("logistic", "extreme")):
                kw = dict(whitenings(n)[wn])
                if bases(n)[bn] is not None:
                    kw["base_dist"] = bases(n)[bn]
                m = MaskedCouplingRQSpline(n, L, [16, 8], 9, jax.random.PRNGKey(2), (-3.0, 3.0), **kw) if kind == "rq" else RealNVP(n, L, 20, jax.random.PRNGKey(2), **kw)
                m = stubs.bend(m, 0.06, 0.0)
                mc.guard(ctx, f"{kind}-n{n}-{bn}-{wn}:exception", flowlib.check_density, ctx, f"{kind}-n{n}-{bn}-{wn}", m, 2, n, Z)
        for n, N in ((2, 33), (5, 12)):
            m = stubs.bend(make(kind, n, **whitenings(n)["scaled"], base_dist=bases(n)["dense"]), 0.3)
            k = f"{kind}-n{n}-N{N}"
            tp, hit = flowlib.draw_map(m, N, n)
            ctx.check((hit.sum(1) <= 1).all() and (hit.sum(0) == n).all(), k + ":independent", f"points depend on {hit.sum(0).tolist()} draws, draws influence {hit.sum(1).tolist()} points")
            flowlib.check_identical(ctx, k, m, N, n, np.array([[(-1.9, 0.2, 1.3)[(i + b) % 3] for i in range(n)] for b in range(3)]))
            out = m.sample(jax.random.PRNGKey(ctx.seed), 700)
            ctx.check(out.shape == (700, n) and len(np.unique(np.asarray(out), axis=0)) == 700, k + ":shape", f"700 samples have shape {out.shape}, or repeat")
            ctx.count(states=hit.size, traces=1)
        ctx.sample({"last": k})
    return part


def trained(kind):
    def part(ctx):
        n = 2
        rng = np.random.default_rng(5)
        A = rng.normal(size=(24, n)) * np.array([0.6, 2.0]) + 0.5
        B = np.stack([np.linspace(-3, 3, 24)] * n, 1) ** 3 / 5 + rng.normal(size=(24, n)) * 0.2
        for bn in ("default", "dense", "learnable"):
            base = stubs.bend(make(kind, n, base_dist=bases(n)[bn] or Gaussian(jnp.zeros(n), jnp.eye(n))), 0.3)
            for h, m in flowlib.trained_states(base, [jnp.asarray(A), jnp.asarray(B)], (0.2,), 2 if not ctx.thorough else 4):
                if bn == "learnable":
                    # an unconstrained covariance is only a distribution while symmetric positive definite
                    c = np.asarray(m.base_dist.cov)
                    if not (np.allclose(c, c.T, atol=1e-6) and np.linalg.eigvalsh((c + c.T) / 2).min() > 1e-3):
                        ctx.bump("skipped: covariance not symmetric positive definite")
                        continue
                k = f"{kind}-trained-{bn}-{h}"
                run(ctx, k, m, n)
        ctx.sample({"last": k, "mean": m.data_mean, "cov": m.data_cov})
    return part


def scales(ctx):
    """In single precision: rescaling the data rescales the samples and shifts the log-density by the logarithm of the scale."""
    for kind, n, dense in itertools.product(("rq", "nvp"), (2, 7), (False, True)):
        C = np.asarray(spd(n, 4)) * 0.3 if dense else np.eye(n)
        build = lambda s: stubs.bend(make(kind, n, data_mean=jnp.zeros(n), data_cov=jnp.asarray(C * s * s, jnp.float32)), 0.2)
        unit = build(1.0)
        Z = np.array([[(-1.9, -0.6, 0.2, 0.8, 1.3)[(a * i + b) % 5] for i in range(n)] for a in (0, 1, 2) for b in range(5)], np.float32)
        key = jax.random.PRNGKey(ctx.seed + 5)
        ref = np.asarray(jax.vmap(unit.log_prob)(jnp.asarray(Z)), np.float64)
        sref = np.asarray(unit.sample(key, 9), np.float64)
        for s in (1e-10, 1e-8, 1e-3, 1e4, 1e9):
            k = f"{kind}-n{n}-{'dense' if dense else 'diagonal'}-scale{s:g}"
            m = build(s)
            r = mc.guard(ctx, k + ":exception", lambda: (np.asarray(jax.vmap(m.log_prob)(jnp.asarray(Z * np.float32(s))), np.float64), np.asarray(m.sample(key, 9), np.float64) / s))
            if r is None:
                continue
            want = ref - n * np.log(s)
            bad = ~(np.abs(r[0] - want) <= 2e-3 * (1 + np.abs(ref)) + 1e-4 * n * abs(np.log(s)))
            i = int(np.argmax(bad))
            ctx.check(not bad.any(), k + ":density", f"with every coordinate scaled by {s:g} the log-density at {(Z[i] * s).tolist()} is {r[0][i]}, must be {want[i]}")
            ctx.check(np.allclose(r[1], sref, rtol=1e-3, atol=1e-3), k + ":sample", f"with every coordinate scaled by {s:g} the samples are not scaled by it")
            ctx.count(states=1, transitions=len(Z) + 9, traces=len(Z))
    ctx.sample({"last": k})


PARTS = {f"{k}{n}": (combos(k, n), {"x64": True}) for k in ("rq", "nvp") for n in (1, 2, 3)}
PARTS.update({f"indep-{k}": (independence(k), {"x64": True}) for k in ("rq", "nvp")})
PARTS.update({f"big-{k}": (big(k), {"x64": True}) for k in ("rq", "nvp")})
PARTS.update({f"trained-{k}": (trained(k), {"x64": True}) for k in ("rq", "nvp")})
PARTS["scales"] = (scales, {})
