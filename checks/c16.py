"""C16: spline layers and spline flows are smooth bijections with the right Jacobian."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import flowlib
import mc
import stubs
from flowMC.resource.model.common import MLP, MaskedCouplingLayer
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline, RQSpline

LEVEL = "model_checking"
BOUNDS = ("every spline parameter vector over a small alphabet (1-4 bins, ranges symmetric and not) x every knot, its neighbours on both sides, bin interiors, "
          "range ends and outside points; every coupling mask in 1-3 dimensions; flows with 1-4 layers and 1-4 dimensions in hand-bent parameter states and in "
          "all states of a breadth-first search over training histories; 64-bit floats, plus a 32-bit pass for finiteness and round trips; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["jax.jacfwd of the composed map is the true Jacobian away from knots, and log-derivatives are compared across each knot"]


def with_params(n_in, K, span, params):
    """Real RQSpline whose conditioner outputs `params` whatever the condition."""
    mlp = MLP([n_in, 2, n_in * (3 * K + 1)], jax.random.PRNGKey(0), scale=1e-2, activation=jax.nn.tanh)
    mlp = eqx.tree_at(lambda m: (m.layers[-1].weight, m.layers[-1].bias), mlp, (jnp.zeros_like(mlp.layers[-1].weight), jnp.asarray(params)))
    return RQSpline(mlp, span[0], span[1])


def waves(K):
    """parameter vectors for many bins: constant, alternating, ramps, one bin apart from the rest, waves"""
    i = np.arange(3 * K + 1)
    out = [0.0 * i, 3.0 * (-1.0) ** i, np.linspace(-3, 3, len(i)), np.linspace(3, -3, len(i))]
    out += [6.0 * (i == j) - 1.0 for j in (0, K - 1, K, 2 * K - 1, 2 * K, 3 * K - 1, 3 * K)]
    out += [a * np.sin((j + 0.4) * i + b) for a in (1.0, 2.5) for j in range(6) for b in (0.0, 1.0)]
    return np.array(out)


def layer(K, alphabet, spans, f32=False):
    def part(ctx):
        if alphabet is None:
            return solve(ctx, K, waves(K), spans, f32)
        al = alphabet if not ctx.thorough else sorted(set(alphabet) | {-1.3, 6.0})
        P = np.array(list(itertools.product(al, repeat=3 * K + 1)))
        if len(P) > 70000:
            al = alphabet
            P = np.array(list(itertools.product(al, repeat=3 * K + 1)))
        solve(ctx, K, P, spans, f32)
    return part


def solve(ctx, K, P, spans, f32):
    dt = jnp.float32 if f32 else jnp.float64
    for span in spans:
        def run(p):
            s = with_params(1, K, span, p)
            xp, yp, sl = [a[0] for a in s.get_params(jnp.zeros(1, dt))]
            w = span[1] - span[0]
            eps = 2e-11 * w if not f32 else 1e-6 * w
            mids = [xp[:-1] + t * (xp[1:] - xp[:-1]) for t in (0.03, 0.5, 0.91)]
            ymids = [yp[:-1] + t * (yp[1:] - yp[:-1]) for t in (0.03, 0.5, 0.91)]
            out = jnp.array([span[0] - 5 * w, span[0] - 0.5, span[1] + 0.5, span[1] + 5 * w], dt)
            xs = jnp.concatenate([xp, xp - eps, xp + eps, *mids, *ymids, yp, out])
            c = jnp.zeros(1, dt)
            F = lambda x: tuple(a[0] for a in s.forward(x[None], c))
            I = lambda x: tuple(a[0] for a in s.inverse(x[None], c))

            def one(x):
                y, l = F(x)
                xb, lb = I(y)
                z, m = I(x)
                xf, mf = F(z)
                h = 1e-7 * w
                return y, l, xb, lb, z, m, xf, mf, jax.jvp(lambda v: F(v)[0], (x,), (jnp.ones((), dt),))[1]

            o = jax.vmap(one)(xs)
            return xs, o, xp, yp, sl

        xs, o, xp, yp, sl = [np.asarray(a) if not isinstance(a, tuple) else a for a in jax.jit(jax.vmap(run))(jnp.asarray(P, dt))]
        y, l, xb, lb, z, m, xf, mf, dv = [np.asarray(a) for a in o]
        nk = K + 1
        key = f"K{K}-span{span}" + ("-f32" if f32 else "")
        w = span[1] - span[0]

        def report(bad, what, k, **d):
            if bad.any():
                i, j = np.argwhere(bad)[0]
                ctx.violation(f"{key}:{k}", f"{what} for spline parameters {P[i].tolist()} at {xs[i, j] if bad.shape == xs.shape else xp[i, j]}",
                              params=P[i], knots_x=xp[i], knots_y=yp[i], slopes=sl[i], index=int(j))

        tol = 1e-3 if f32 else 1e-7
        report(~(np.isfinite(y) & np.isfinite(l) & np.isfinite(z) & np.isfinite(m)), "non-finite output", "finite")
        ctx.check((np.diff(xp, axis=1) > 0).all() and (np.diff(yp, axis=1) > 0).all() and (sl > 0).all(), f"{key}:knots", "knots are not increasing or a slope is not positive")
        ctx.check(np.allclose(xp[:, 0], span[0]) and np.allclose(xp[:, -1], span[1]) and np.allclose(yp[:, 0], span[0]) and np.allclose(yp[:, -1], span[1]), f"{key}:range", "the spline does not map its range to itself")
        report(~(np.abs(xb - xs) <= tol * w * (1 + np.exp(-l))), "inverse(forward(x)) differs from x", "roundtrip")
        report(~(np.abs(xf - xs) <= tol * w * (1 + np.exp(-m))), "forward(inverse(x)) differs from x", "roundtrip-inverse")
        if not f32:
            report(~(np.abs(l + lb) <= 1e-5), "log-determinants not opposite", "opposite")
            report(~(np.abs(m + mf) <= 1e-5), "log-determinants not opposite (inverse first)", "opposite-inverse")
            inner = np.ones(xs.shape, bool)
            # not within rounding of a knot: there the neighbours on both sides decide
            inner &= (np.abs(xs[:, :, None] - xp[:, None, :]) > 2e-12 * w).all(-1)
            report(inner & ~(np.abs(np.log(np.abs(dv)) - l) <= 1e-6 * (1 + np.abs(l))), "reported log-determinant is not the log derivative", "jacobian")
            report(inner & ~(dv > 0), "not increasing", "increasing")
            # across a knot value and derivative are continuous and equal to the value at the knot
            for side in (1, 2):
                report(~(np.abs(l[:, side * nk : (side + 1) * nk] - l[:, :nk]) <= 1e-2), "the derivative jumps at a knot", f"knot-slope{side}")
                report(~(np.abs(y[:, side * nk : (side + 1) * nk] - y[:, :nk]) <= 1e-5 * w), "the value jumps at a knot", f"knot-jump{side}")
            # values: knots are mapped to knots, order of points is preserved
            report(~(np.abs(y[:, :nk] - yp) <= 1e-9 * (1 + np.abs(yp))), "a knot is not mapped to its knot", "knot")
            od = np.argsort(xs, 1)
            ys = np.take_along_axis(y, od, 1)
            xo = np.take_along_axis(xs, od, 1)
            bad = (np.diff(xo, axis=1) > 1e-8 * w) & ~(np.diff(ys, axis=1) > 0)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                ctx.violation(f"{key}:monotone", f"forward maps {xo[i, j]} < {xo[i, j + 1]} to {ys[i, j]} and {ys[i, j + 1]}", params=P[i])
        ctx.count(states=xs.size, transitions=4 * xs.size, traces=len(P))
    ctx.sample({"bins": K, "parameter settings": len(P), "points per setting": xs.shape[1], "knots of one": xp[len(P) // 3], "values": yp[len(P) // 3]})


def bent_mlp(n, K, phase):
    mlp = MLP([n, 3, n * (3 * K + 1)], jax.random.PRNGKey(1), scale=1e-2, activation=jax.nn.tanh)
    return stubs.bend(mlp, 0.7, phase)


def coupling(ctx):
    """every mask; the transformation may depend only on the conditioning coordinates"""
    for n in (1, 2, 3):
        X = flowlib.grid(n, (-3.0, -1.2, 0.0, 0.4, 2.9) if n < 3 else (-3.0, -0.7, 0.4, 2.9))
        for mask in itertools.product((False, True), repeat=n):
            for K, span, phase in itertools.product((2, 4), ((-2.0, 2.0), (-1.0, 3.0)), (0.0, 1.0)):
                lay = MaskedCouplingLayer(RQSpline(bent_mlp(n, K, phase), *span), jnp.array(mask))
                k = f"coupling-n{n}-{''.join(str(int(b)) for b in mask)}-K{K}-{span}-{phase}"
                J = flowlib.oracle(ctx, k, lay, X, fixed=mask, sign=True, tol=1e-8, fwd=flowlib.cpl_fwd, inv=flowlib.cpl_inv)[-1]
                # a transformed coordinate must not see other transformed ones
                f = np.array(mask)
                off = J[:, ~f][:, :, ~f] * (1 - np.eye((~f).sum()))[None]
                ctx.check((off == 0).all(), k + ":triangular", "a transformed coordinate depends on another transformed coordinate")
                if f.any() and (~f).any():
                    ctx.check((np.abs(J[:, ~f][:, :, f]) > 0).any(), k + ":conditioned", "the layer ignores its condition")
                ctx.count(traces=1)
    ctx.sample({"last": k})


def flow_points(n, span):
    lv = (span[0], span[0] - 0.7, -0.4, 0.0, 1.1, span[1], span[1] + 2.0)
    if n == 1:
        lv = tuple(np.linspace(span[0] - 2, span[1] + 2, 41)) + lv
    if n == 3:
        lv = (span[0], -0.4, 0.9, span[1] + 1.0)
    if n == 4:
        lv = (span[0] - 0.5, 0.3, span[1])
    far = [[(-1.0) ** ((i + b) // (1 + b % 2)) * r for i in range(n)] for r in (15.0, 200.0) for b in range(3)]
    return np.concatenate([flowlib.grid(n, lv), far])


def flows(n):
    def part(ctx):
        for L, K, span in itertools.product((1, 2, 3, 4), (3,) if not ctx.thorough else (1, 3, 8), ((-2.0, 2.0), (-1.0, 3.0))):
            if not ctx.thorough and (L % 2 == 0) != (span[0] == -1.0):
                continue
            base = MaskedCouplingRQSpline(n, L, [4], K, jax.random.PRNGKey(L), span)
            X = flow_points(n, span)
            for phase in (0.0, 2.0) if not ctx.thorough else (0.0, 1.0, 2.0, 3.0):
                m = stubs.bend(base, 0.45, phase)
                k = f"flow-n{n}-L{L}-K{K}-{span}-bent{phase}"
                mc.guard(ctx, k + ":exception", lambda: check_flow(ctx, k, m, X, n))
                ctx.count(traces=1)
            k = f"flow-n{n}-L{L}-K{K}-{span}-fresh"
            mc.guard(ctx, k + ":exception", lambda: check_flow(ctx, k, base, X, n))
        ctx.sample({"last": k, "points": len(X)})
    return part


@eqx.filter_jit
def call(m, X):
    return jax.vmap(m)(X)


def check_flow(ctx, k, m, X, n):
    y, l, z, mm, J = flowlib.oracle(ctx, k, m, X, tol=2e-7)
    # __call__ is forward
    yc, lc = call(m, jnp.asarray(X))
    ctx.check(np.allclose(yc, y, atol=1e-12) and np.allclose(np.asarray(lc).reshape(-1), l, atol=1e-12), k + ":call", "calling the flow is not its forward map")


def trained(n):
    def part(ctx):
        rng = np.random.default_rng(5)
        A = rng.normal(size=(24, n)) * 0.6 + 0.5
        B = np.stack([np.linspace(-3, 3, 24)] * n, 1) ** 3 / 5 + rng.normal(size=(24, n)) * 0.2
        base = MaskedCouplingRQSpline(n, 2, [4], 3, jax.random.PRNGKey(3), (-2.0, 2.0))
        X = flow_points(n, (-2.0, 2.0))
        base = stubs.bend(base, 0.2)
        states = flowlib.trained_states(base, [jnp.asarray(A), jnp.asarray(B)], (0.1, 0.5), 3 if not ctx.thorough else 4)
        for h, m in states:
            check_flow(ctx, f"trained-n{n}-{h}", m, X, n)
        moved = max(float(jnp.abs(a - b).max()) for a, b in zip(jax.tree_util.tree_leaves(eqx.filter(base.layers, eqx.is_inexact_array)), jax.tree_util.tree_leaves(eqx.filter(m.layers, eqx.is_inexact_array))))
        ctx.reach(moved > 0.1, "training moves the parameters")
        ctx.count(traces=len(states))
        ctx.sample({"training histories": len(states), "deepest": str(h), "largest parameter move": moved})
    return part


def large(ctx):
    """many bins, many dimensions, many layers, wide and several hidden layers"""
    for K, spans in ((6, ((-2.0, 2.0),)), (8, ((-10.0, 10.0), (0.5, 3.0))), (17, ((-4.0, 6.0),)), (40, ((-10.0, 10.0),))):
        layer(K, None, spans)(ctx)
    for n, L, hidden, K in ((5, 5, [4], 3), (6, 9, [16, 8], 8), (9, 10, [8, 8, 8], 10), (16, 3, [40], 4)):
        for phase in (0.0, 2.0):
            m = stubs.bend(MaskedCouplingRQSpline(n, L, hidden, K, jax.random.PRNGKey(L), (-3.0, 3.0)), 0.15, phase)
            X = np.array([[(-3.5, -3.0, -1.1, 0.0, 0.6, 2.2, 3.0, 3.9)[(a * i + b) % 8] for i in range(n)] for a in range(1, 5) for b in range(8)])
            k = f"flow-n{n}-L{L}-K{K}-bent{phase}"
            mc.guard(ctx, k + ":exception", lambda: check_flow(ctx, k, m, X, n))
            moved = (np.asarray(call(m, jnp.asarray(X))[0]) != X).any(0)
            if L > 1:
                ctx.check(moved.all(), k + ":moves", f"after {L} layers some coordinate is never transformed: {moved.tolist()}")
            ctx.count(traces=1)
    ctx.sample({"last": k, "points": len(X)})


def f32(ctx):
    layer(2, (-4.0, 0.0, 4.0), ((-10.0, 10.0),), f32=True)(ctx)
    layer(8, None, ((-10.0, 10.0),), f32=True)(ctx)
    for n, L in ((1, 2), (2, 4), (3, 3)):
        m = stubs.bend(MaskedCouplingRQSpline(n, L, [4], 4, jax.random.PRNGKey(L)), 0.3)
        X = flow_points(n, (-10.0, 10.0))
        flowlib.oracle(ctx, f"flow32-n{n}-L{L}", m, X.astype(np.float32), tol=5e-3, jac=False)
    

PARTS = {
    "layer1": (layer(1, (-4.0, -1.0, 0.0, 2.0, 5.0), ((-2.0, 2.0), (-10.0, 10.0), (0.5, 3.0))), {"x64": True}),
    "layer2": (layer(2, (-4.0, 0.0, 3.0), ((-2.0, 2.0), (-10.0, 10.0), (-1.0, 4.0))), {"x64": True}),
    "layer3": (layer(3, (-3.0, 3.0), ((-3.0, 3.0),)), {"x64": True}),
    "layer4": (layer(4, (-2.0, 4.0), ((-5.0, 5.0),)), {"x64": True}),
    "coupling": (coupling, {"x64": True}),
    "f32": (f32, {}),
    "large": (large, {"x64": True}),
}
PARTS.update({f"flow{n}": (flows(n), {"x64": True}) for n in (1, 2, 3, 4)})
PARTS.update({f"trained{n}": (trained(n), {"x64": True}) for n in (1, 2)})
