"""C17: affine coupling flows are bijections with the right Jacobian."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import flowlib
import mc
import stubs
from flowMC.resource.model.common import MLP, MaskedCouplingLayer, MLPAffine, ScalarAffine
from flowMC.resource.model.nf_model.realNVP import AffineCoupling, RealNVP

LEVEL = "model_checking"
BOUNDS = ("scalar affine layers on a grid of scales and shifts; MLP-affine and affine-coupling layers for every mask in 1-3 dimensions, several step scales dt and "
          "bent weights; RealNVP with 1-4 dimensions and 1-4 layers, in bent states and in all states of a breadth-first search over training histories; every point "
          "of a grid on both sides of each map; 64-bit floats, plus a 32-bit round-trip pass; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["jax.jacfwd gives the true Jacobian of the composed map"]

LV = {1: tuple(np.linspace(-4, 4, 33)), 2: (-3.0, -1.2, 0.0, 0.4, 2.9), 3: (-3.0, -0.7, 0.4, 2.9), 4: (-2.0, 0.3, 1.7)}


def points(n):
    """a lattice, and points far away from it"""
    far = np.array([[(-1.0) ** ((i + b) // (1 + b % 2)) * r for i in range(n)] for r in (12.0, 150.0) for b in range(3)])
    return np.concatenate([flowlib.grid(n, LV[n]), far])


def mlp(n, phase, act=jax.nn.relu):
    return stubs.bend(MLP([n, 5, n], jax.random.PRNGKey(1), activation=act), 0.8, phase)


def triangular(ctx, k, J, fixed, linear=False):
    f = np.array(fixed, bool)
    off = J[:, ~f][:, :, ~f] * (1 - np.eye((~f).sum()))[None]
    ctx.check((off == 0).all(), k + ":triangular", "a transformed coordinate depends on another transformed coordinate")
    if f.any() and (~f).any():
        ctx.check((np.abs(J[:, ~f][:, :, f]) > 0).any(), k + ":conditioned", "the layer ignores its condition")


def scalar(ctx):
    al = (-12.0, -3.0, -1.0, -0.2, 0.0, 0.5, 2.0, 12.0) if not ctx.thorough else tuple(np.linspace(-4, 4, 17))
    for s, t in itertools.product(al, al):
        for n in (1, 2, 3):
            X = points(n)
            for mask in [None] + list(itertools.product((False, True), repeat=n)):
                a = ScalarAffine(s, t)
                if mask is None:
                    if n > 1:
                        continue  # the bare layer reports one scale, not n of them
                    flowlib.oracle(ctx, f"scalar-{s}-{t}", a, X, sign=True, fwd=flowlib.cpl_fwd, inv=flowlib.cpl_inv, tol=1e-9)
                else:
                    m = MaskedCouplingLayer(a, jnp.array(mask))
                    flowlib.oracle(ctx, f"masked-scalar-{s}-{t}-{mask}", m, X, sign=True, fixed=mask, fwd=flowlib.cpl_fwd, inv=flowlib.cpl_inv, tol=1e-9)
                ctx.count(traces=1)
    # construction keeps the parameters
    a = ScalarAffine(0.3, -0.2)
    ctx.check(np.allclose(a.scale, 0.3) and np.allclose(a.shift, -0.2), "scalar-params", "scale and shift are not those given")
    ctx.sample({"scales and shifts": al})


def aff_fwd(m, x):
    return m.forward(x)


def aff_inv(m, x):
    return m.inverse(x)


def mlp_affine(ctx):
    for n in (1, 2, 3):
        X = points(n)
        for mask, dt, phase, asbool in itertools.product(itertools.product((0, 1), repeat=n), (1, 0.5, 2.0, 5.0), (0.0, 1.0, 2.0), (True, False)):
            if not ctx.thorough and phase and dt != 1:
                continue
            k = f"mlpaffine-n{n}-{mask}-dt{dt}-{phase}-{'bool' if asbool else 'float'}"
            lay = MaskedCouplingLayer(MLPAffine(mlp(n, phase), mlp(n, phase + 0.5, jax.nn.tanh), dt), jnp.array(mask, bool if asbool else float))
            J = flowlib.oracle(ctx, k, lay, X, sign=True, fixed=mask, fwd=flowlib.cpl_fwd, inv=flowlib.cpl_inv, tol=1e-9)[-1]
            triangular(ctx, k, J, mask)
            ctx.count(traces=1)
    ctx.sample({"last": k})


def affine_coupling(ctx):
    for n in (1, 2, 3):
        X = points(n)
        for mask, dt, phase in itertools.product(itertools.product((0, 1), repeat=n), (1, 0.5, 2.0, -0.8, 5.0), (0.0, 1.0, 2.0)):
            if not ctx.thorough and phase and dt != 1:
                continue
            # here mask 1 marks the transformed coordinates
            k = f"affinecoupling-n{n}-{mask}-dt{dt}-{phase}"
            lay = stubs.bend(AffineCoupling(n, 5, jnp.array(mask, float), jax.random.PRNGKey(2), dt=dt), 0.8, phase)
            fixed = 1 - np.array(mask)
            J = flowlib.oracle(ctx, k, lay, X, sign=True, fixed=fixed, tol=1e-9)[-1]
            triangular(ctx, k, J, fixed)
            yc = np.asarray(jax.vmap(lay)(jnp.asarray(X))[0])
            yf = np.asarray(jax.vmap(lay.forward)(jnp.asarray(X))[0])
            ctx.check((yc == yf).all(), k + ":call", "calling the layer is not its forward map")
            ctx.check(lay.n_features == n, k + ":n", "n_features is not the number of features")
            ctx.count(traces=1)
    ctx.sample({"last": k})


@eqx.filter_jit
def call(m, X):
    return jax.vmap(m)(X)


def check_flow(ctx, k, m, X, tol=1e-7):
    y, l = flowlib.oracle(ctx, k, m, X, tol=tol)[:2]
    yc, lc = call(m, jnp.asarray(X))
    ctx.check(np.allclose(yc, y, atol=1e-10) and np.allclose(np.asarray(lc), l, atol=1e-10), k + ":call", "calling the flow is not its forward map")
    ctx.count(traces=1)


def flows(n):
    def part(ctx):
        X = points(n)
        for L in (1, 2, 3, 4):
            base = RealNVP(n, L, 6, jax.random.PRNGKey(L))
            check_flow(ctx, f"fresh-n{n}-L{L}", base, X)
            for phase, amount in itertools.product((0.0, 1.0, 2.0), (0.2, 0.6)):
                m = stubs.bend(base, amount, phase)
                check_flow(ctx, f"bent-n{n}-L{L}-{phase}-{amount}", m, X)
            if L >= 2 and n >= 2:  # both halves are transformed, each at least once
                moved = (np.asarray(call(m, jnp.asarray(X))[0]) != X).any(0)
                ctx.check(moved.all(), f"moves-n{n}-L{L}", f"after {L} layers some coordinate is never transformed: {moved.tolist()}")
            # every layer conditions on a non-trivial part
            masks = np.asarray(m.affine_coupling.mask)
            ctx.check(np.isin(masks.astype(float), (0.0, 1.0)).all() and masks.shape == (L, n), f"masks-n{n}-L{L}", f"masks are {masks.tolist()}")
        ctx.sample({"features": n, "points": len(X), "masks": masks.astype(int)})
    return part


def large(ctx):
    """many dimensions, many layers, wide networks"""
    for n, L, H in ((5, 5, 6), (7, 10, 32), (8, 12, 64), (12, 3, 100), (17, 2, 8)):
        X = np.array([[(-3.5, -1.1, 0.0, 0.3, 0.6, 2.2, 3.9)[(a * i + b) % 7] for i in range(n)] for a in range(1, 5) for b in range(7)])
        for phase in (0.0, 2.0):
            m = stubs.bend(RealNVP(n, L, H, jax.random.PRNGKey(L)), 0.3 / np.sqrt(H * L), phase)
            mc.guard(ctx, f"flow-n{n}-L{L}-{phase}:exception", lambda: check_flow(ctx, f"flow-n{n}-L{L}-{phase}", m, X))
            moved = (np.asarray(call(m, jnp.asarray(X))[0]) != X).any(0)
            ctx.check(moved.all(), f"moves-n{n}-L{L}", f"after {L} layers some coordinate is never transformed: {moved.tolist()}")
        for b in range(3):
            mask = [((i + b) % (b + 2)) == 0 for i in range(n)]
            lay = stubs.bend(AffineCoupling(n, H, jnp.array(mask, float), jax.random.PRNGKey(2)), 0.8 / np.sqrt(H), b)
            fixed = ~np.array(mask)
            triangular(ctx, f"affinecoupling-n{n}-{b}", flowlib.oracle(ctx, f"affinecoupling-n{n}-{b}", lay, X, sign=True, fixed=fixed, tol=1e-8)[-1], fixed)
            f = lambda q, act: stubs.bend(MLP([n, H, H, n], jax.random.PRNGKey(1), activation=act), 0.8 / np.sqrt(H), q)
            lay = MaskedCouplingLayer(MLPAffine(f(b, jax.nn.relu), f(b + 0.5, jax.nn.tanh)), jnp.array(mask))
            triangular(ctx, f"mlpaffine-n{n}-{b}", flowlib.oracle(ctx, f"mlpaffine-n{n}-{b}", lay, X, sign=True, fixed=mask, fwd=flowlib.cpl_fwd, inv=flowlib.cpl_inv, tol=1e-8)[-1], mask)
            lay = MaskedCouplingLayer(ScalarAffine(0.7 - b, 0.3), jnp.array(mask))
            flowlib.oracle(ctx, f"scalar-n{n}-{b}", lay, X, sign=True, fixed=mask, fwd=flowlib.cpl_fwd, inv=flowlib.cpl_inv, tol=1e-8)
            ctx.count(traces=3)
    ctx.sample({"last": f"n{n}-L{L}", "points": len(X)})


def trained(n):
    def part(ctx):
        rng = np.random.default_rng(5)
        A = rng.normal(size=(24, n)) * 0.6 + 0.5
        B = np.stack([np.linspace(-3, 3, 24)] * n, 1) ** 3 / 5 + rng.normal(size=(24, n)) * 0.2
        X = points(n)
        base = stubs.bend(RealNVP(n, 3, 6, jax.random.PRNGKey(3)), 0.3)
        states = flowlib.trained_states(base, [jnp.asarray(A), jnp.asarray(B)], (0.1, 0.5), 3 if not ctx.thorough else 4)
        for h, m in states:
            check_flow(ctx, f"trained-n{n}-{h}", m, X)
        moved = max(float(jnp.abs(a - b).max()) for a, b in zip(jax.tree_util.tree_leaves(eqx.filter(base, eqx.is_inexact_array)), jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array))))
        ctx.reach(moved > 0.1, "training moves the parameters")
        ctx.sample({"training histories": len(states), "deepest": str(h), "largest parameter move": moved})
    return part


def f32(ctx):
    for n, L in ((1, 2), (2, 4), (3, 3), (4, 2)):
        m = stubs.bend(RealNVP(n, L, 6, jax.random.PRNGKey(L)), 0.4)
        flowlib.oracle(ctx, f"f32-n{n}-L{L}", m, points(n).astype(np.float32), tol=2e-3, jac=False)
        ctx.count(traces=1)


PARTS = {"scalar": (scalar, {"x64": True}), "mlp_affine": (mlp_affine, {"x64": True}), "affine_coupling": (affine_coupling, {"x64": True}), "f32": (f32, {}), "large": (large, {"x64": True})}
PARTS.update({f"flow{n}": (flows(n), {"x64": True}) for n in (1, 2, 3, 4)})
PARTS.update({f"trained{n}": (trained(n), {"x64": True}) for n in (2, 3)})
