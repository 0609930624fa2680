"""C03: HMC leaves the target invariant for every condition matrix, step size, trajectory length."""
import jax.numpy as jnp
import numpy as np

import mc
import mh
import tape as T
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.logPDF import LogPDF

LEVEL = "model_checking"
BOUNDS = ("all pairs (lattice state, lattice momentum draw) x all acceptance draws of a 16-quantile grid plus 1/2(1+-3e-4) and 2^-22, for "
          "each target / metric (scalar, identity, diagonal, full) / step size / leapfrog count; every transition executes the real kernel")
ASSUMPTIONS = [
    "jax.random's sampling transforms are correct functions of the bits they draw; jax.grad is correct",
    "trajectories short enough that the momentum-to-proposal map is injective (pairs without a unique reverse draw are counted and skipped)",
    "x64 arithmetic; a ratio error below 3e-4 relative is not distinguished",
]


def metric_law(ctx, name, L, M, nl, d):
    """At vanishing step size the displacement covariance is proportional to the condition
    matrix (momentum ~ N(0, M^-1), velocity M p), and the energy error is of second order."""
    Mm = M * np.eye(d) if np.ndim(M) == 0 else np.asarray(M, float)
    xs = mh.grid([-0.9, 0.7], d)
    K = mh.KernelUnderTest(HMC(M, 1e-3, nl), LogPDF(L, n_dims=d), mh.DATA, d)
    K.classify([T.quantiles(3)[0]])
    J = K.jac(xs, np.zeros_like(xs))
    for i in range(len(xs)):
        C = J[i] @ J[i].T
        ok = np.abs(C / np.trace(C) - Mm / np.trace(Mm)).max() < 1e-3
        if not ctx.check(ok, f"{name}:metric", f"small-step displacement covariance is not proportional to the condition matrix: {(C / np.trace(C)).tolist()} vs {(Mm / np.trace(Mm)).tolist()}"):
            break


def one(ctx, L, d, M, eps, nl, xs, zs):
    name = f"HMC-{L.__name__}-d{d}-M{np.asarray(M).tolist() if d < 4 else 'full'}-eps{eps}-n{nl}"

    def build():
        return mh.KernelUnderTest(HMC(M, eps, nl), LogPDF(L, n_dims=d), mh.DATA, d)

    K = mc.guard(ctx, f"{name}:exception", build)
    if K is None:
        return None
    p, u = K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
    if not ctx.check(len(p) >= d and len(u) >= 1, f"{name}:slots", f"proposal uses {len(p)} independent draws in {d} dimensions and the decision {len(u)}"):
        return None
    assert len(p) == d, "kernel draws more words than dimensions"
    mh.check_detailed_balance(ctx, name, K, xs, zs)
    return K


def tails(ctx):
    """On a Gaussian target the trajectory is linear in the momentum, however rare the momentum."""
    for d, M in ((1, jnp.eye(1)), (2, FULL), (2, DIAG)):
        K = mh.KernelUnderTest(HMC(M, 0.2, 3), LogPDF(mh.corr, n_dims=d), mh.DATA, d)
        K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
        if not ctx.check(len(K.prop) >= d, f"tails-d{d}:slots", f"the momentum uses {len(K.prop)} independent draws in {d} dimensions"):
            continue
        x = np.full((1, d), 0.4)
        far = T.bits_to_z(T.z_to_bits(np.concatenate([s * z * np.eye(d) for z in (3.3, 4.1, 4.8, 5.2) for s in (1, -1)])))
        mid = T.bits_to_z(T.z_to_bits(np.zeros((1, d))))
        D = K.Y(np.repeat(x, len(far), 0), far)[0] - K.Y(x, mid)[0]
        lin = (K.jac(x, np.zeros((1, d)))[0] @ far.T).T
        e = np.abs(D - lin).max(1) / np.abs(lin).max(1)
        ctx.check((e < 2e-3).all(), f"tails-d{d}", f"a momentum draw of {far[int(e.argmax())].tolist()} standard deviations moves the chain by {D[int(e.argmax())].tolist()}, must be {lin[int(e.argmax())].tolist()}")
        ctx.count(states=1, transitions=len(far), traces=len(far))


def energy(ctx, L, d, M, nl):
    """|Delta H| from threshold search: must shrink at least ~ eps^2 when eps is halved."""
    xs = mh.grid([-0.9, 0.7], d)
    zs = mh.grid([-1.1, 0.6], d)
    X = np.repeat(xs, len(zs), 0)
    Z = np.tile(zs, (len(xs), 1))
    out = []
    for eps in (0.08, 0.04):
        K = mh.KernelUnderTest(HMC(M, eps, nl), LogPDF(L, n_dims=d), mh.DATA, d)
        K.classify([T.quantiles(3)[0]])
        # acceptance with u ~ 1/2: accepted iff c > log(1/2) - log r  => bisect c
        lo, hi = np.full(len(X), -30.0), np.full(len(X), 30.0)
        tp = K.tapes_from_z(Z, np.full(len(X), 2**31, np.uint32))
        for _ in range(40):
            mid = (lo + hi) / 2
            _, _, a = K.run(tp, X, mid)
            hi = np.where(a, mid, hi)
            lo = np.where(a, lo, mid)
        out.append(np.abs(np.log(0.5) - (lo + hi) / 2))
        ctx.count(transitions=K.n_exec)
    ok = out[1] <= out[0] / 3.0 + 1e-5
    i = int(np.argmin(ok))
    ctx.check(ok.all(), f"HMC-{L.__name__}-n{nl}:energy", f"energy error does not shrink with the step size: {out[0][i]:.3g} at 0.08, {out[1][i]:.3g} at 0.04", x=X[i], z=Z[i])


def part_d1(ctx):
    xs = mh.grid(np.linspace(-1.8, 2, 13 if ctx.thorough else 7), 1)
    zs = mh.grid(np.linspace(-2.2, 2.2, 13 if ctx.thorough else 7) + 0.013, 1)
    for L, M, eps, nl in [
        (mh.gauss1, jnp.eye(1), 0.3, 1),
        (mh.gauss1, jnp.array([[0.4]]), 0.25, 3),
        (mh.quartic, jnp.array([[2.0]]), 0.1, 2),
        (mh.bimodal, jnp.eye(1), 0.2, 2),
    ]:
        one(ctx, L, 1, M, eps, nl, xs, zs)
    energy(ctx, mh.quartic, 1, jnp.eye(1), 2)
    energy(ctx, mh.gauss1, 1, jnp.array([[0.4]]), 4)


def part_scalar(ctx):
    xs = mh.grid(np.linspace(-1.8, 2, 4), 1)
    zs = mh.grid(np.linspace(-2.2, 2.2, 4) + 0.013, 1)
    for d, M in ((1, 1), (1, 0.5), (2, 2.0)):
        one(ctx, mh.corr, d, M, 0.2, 2, mh.grid([-0.8, 0.5, 1.4], d), mh.grid([-1.4, 0.3, 1.1], d))
        metric_law(ctx, f"HMC-scalar{M}-d{d}", mh.corr, M, 1, d)


FULL = jnp.array([[1.5, 0.7], [0.7, 0.8]])
DIAG = jnp.diag(jnp.array([0.4, 2.0]))


def part_d2(ctx, M, eps, nl, L):
    xs = mh.grid([-1.3, -0.2, 0.6, 1.5] if ctx.thorough else [-1.1, 0.3, 1.5], 2)
    zs = mh.grid([-1.7, -0.4, 0.5, 1.3] if ctx.thorough else [-1.7, 0.4, 1.2], 2)
    one(ctx, L, 2, M, eps, nl, xs, zs)
    metric_law(ctx, f"HMC-{L.__name__}-M{np.asarray(M).tolist()}", L, M, nl, 2)


def scales(ctx):
    """Steep and flat targets, other magnitudes of the unnormalised density, long trajectories."""
    for L, M, eps, nl, f in ((mh.steep, jnp.eye(1), 0.0006, 2, 1.0), (mh.wide, jnp.array([[0.5]]), 12.0, 2, 40.0), (mh.far(-2e4), jnp.eye(1), 0.2, 2, 1.0), (mh.far(3e4), jnp.eye(1), 0.2, 2, 1.0), (mh.flat, jnp.eye(1), 0.2, 2, 1.0), (mh.gauss1, jnp.eye(1), 0.06, 10, 1.0)):
        one(ctx, L, 1, M, eps, nl, f * mh.grid(np.linspace(-2, 2, 5), 1), mh.grid(np.linspace(-2.2, 2.2, 5) + 0.013, 1))


def many_dims(ctx):
    for d, eps, nl in ((5, 0.12, 10), (8, 0.1, 3), (13, 0.05, 1), (2, 0.04, 30), (2, 0.012, 90), (1, 0.3, 0)):
        M = 0.8 * np.eye(d) + 0.2 * np.ones((d, d)) + np.diag(0.1 * np.arange(d))
        one(ctx, mh.corr, d, jnp.asarray(M), eps, nl, mh.star(d, 0.5, 0.3), mh.star(d, 1.2, 0.013))


def edges(ctx):
    for t in (mh.hole, mh.island):
        mh.check_edges(ctx, f"HMC-{t.__name__}", HMC(jnp.eye(1), 0.4, 2), 1, mh.grid(np.linspace(-1.75, 1.75, 8), 1), t, 15 if ctx.thorough else 9)
    mh.check_edges(ctx, "HMC-hole-d2", HMC(FULL, 0.4, 2), 2, mh.grid([-0.6, 0.5, 1.3], 2), mh.hole, 7)


PARTS = {
    "scales": (scales, {"x64": True}),
    "tails": (tails, {"x64": True}),
    "edges": (edges, {"x64": True}),
    "many_dims": (many_dims, {"x64": True}),
    "d1": (part_d1, {"x64": True}),
    "scalar": (part_scalar, {"x64": True}),
    "d2eye": (lambda c: part_d2(c, jnp.eye(2), 0.25, 2, mh.corr), {"x64": True}),
    "d2diag": (lambda c: part_d2(c, DIAG, 0.2, 2, mh.corr), {"x64": True}),
    "d2full": (lambda c: part_d2(c, FULL, 0.2, 2, mh.corr), {"x64": True}),
    "d2banana": (lambda c: part_d2(c, FULL, 0.1, 1, mh.banana), {"x64": True}),
    "d3full": (lambda c: one(c, mh.corr, 3, jnp.array([[1.0, 0.3, 0.0], [0.3, 0.7, -0.2], [0.0, -0.2, 1.4]]), 0.15, 2, mh.grid([-0.7, 0.8], 3), mh.grid([-0.9, 0.6], 3)), {"x64": True}),
}
