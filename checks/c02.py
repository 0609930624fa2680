"""C02: MALA leaves the target invariant, with the Langevin proposal of its step size."""
import jax
import jax.numpy as jnp
import numpy as np

import mh
import tape as T
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.logPDF import LogPDF

LEVEL = "model_checking"
BOUNDS = ("all pairs (lattice state, lattice proposal draw) x all acceptance draws of a 16-quantile grid plus 1/2(1+-3e-4) and 2^-22, for "
          "each target / scalar or diagonal-matrix step size / dimension; every transition executes the real kernel under the tape PRNG")
ASSUMPTIONS = [
    "jax.random's sampling transforms are correct functions of the bits they draw; jax.grad is correct",
    "x64 arithmetic; a ratio error below 3e-4 relative is not distinguished",
]


def proposal_law(ctx, name, K, xs, zs, step):
    """Y = x + step^2/2 grad log pi(x) + step N(0,1)."""
    d = K.d
    S = np.asarray(step, float)
    A = S * np.eye(d) if S.ndim == 0 else S
    W = A @ A.T
    g = np.asarray(jax.vmap(jax.grad(lambda x: K.L(x, K.data)))(jnp.asarray(xs)))
    mean = xs + 0.5 * g @ W.T
    X = np.repeat(xs, len(zs), 0)
    Z = T.bits_to_z(T.z_to_bits(np.tile(zs, (len(xs), 1))))
    Y = K.Y(X, Z)[0].reshape(len(xs), len(zs), d)
    for i in range(len(xs)):
        J = K.jac(xs[i : i + 1], np.zeros((1, d)))[0]
        C = J @ J.T
        if not ctx.check(np.abs(C - W).max() < 1e-4 * np.abs(W).max(), f"{name}:scale", f"proposal covariance is not step_size**2 at {xs[i].tolist()}: {C.tolist()} vs {W.tolist()}"):
            break
        lin = mean[i] + (J @ Z[: len(zs)].T).T
        if not ctx.check(np.abs(Y[i] - lin).max() < 1e-4 * (1 + np.abs(lin).max()), f"{name}:drift", f"proposal mean is not x + step^2/2 grad log pi at {xs[i].tolist()}", worst=float(np.abs(Y[i] - lin).max())):
            break
    # rare draws, far out in both tails
    far = T.bits_to_z(T.z_to_bits(np.concatenate([s * z * np.eye(d) for z in (3.3, 4.1, 4.8, 5.2) for s in (1, -1)])))
    D = K.Y(np.repeat(xs[:1], len(far), 0), far)[0] - mean[:1]
    lin = (K.jac(xs[:1], np.zeros((1, d)))[0] @ far.T).T
    e = np.abs(D - lin).max(1) / np.abs(lin).max(1)
    ctx.check((e < 2e-3).all(), f"{name}:tails", f"a draw of {far[int(e.argmax())].tolist()} standard deviations is {D[int(e.argmax())].tolist()} away from the mean of the proposal, must be {lin[int(e.argmax())].tolist()}")
    ctx.count(transitions=Y.shape[0] * Y.shape[1] + len(far))


def make(targets, d, steps, nx, nz):
    def part(ctx):
        xs = mh.grid(np.linspace(-1.8, 2, nx + (4 if ctx.thorough else 0)), d)
        zs = mh.grid(np.linspace(-2.2, 2.2, nz + (4 if ctx.thorough else 0)) + 0.013, d)
        for L in targets:
            for st in steps:
                name = f"MALA-{L.__name__}-d{d}-step{np.asarray(st).tolist()}"
                K = mh.KernelUnderTest(MALA(st), LogPDF(L, n_dims=d), mh.DATA, d)
                p, u = K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
                if not ctx.check(len(p) >= d and len(u) >= 1, f"{name}:slots", f"proposal uses {len(p)} independent draws in {d} dimensions and the decision {len(u)}"):
                    continue
                assert len(p) == d, "kernel draws more words than dimensions"
                proposal_law(ctx, name, K, xs, zs, st)
                mh.check_detailed_balance(ctx, name, K, xs, zs)
    return part


def scales(ctx):
    """Steep gradients, large steps and unnormalised densities of other magnitudes."""
    for L, st, f in ((mh.steep, 0.0012, 1.0), (mh.steep, 5e-5, 3.0), (mh.wide, 25.0, 40.0), (mh.wide, 3.0, 100.0), (mh.far(-2e4), 0.7, 1.0), (mh.far(3e4), 0.7, 1.0), (mh.flat, 0.7, 1.0)):
        xs, zs = f * mh.grid(np.linspace(-2, 2, 5), 1), mh.grid(np.linspace(-2.2, 2.2, 5) + 0.013, 1)
        name = f"MALA-{L.__name__}-step{st}"
        K = mh.KernelUnderTest(MALA(st), LogPDF(L, n_dims=1), mh.DATA, 1)
        K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
        assert len(K.prop) == 1
        proposal_law(ctx, name, K, xs, zs, st)
        mh.check_detailed_balance(ctx, name, K, xs, zs)


def many_dims(ctx):
    for d in (5, 8, 13):
        name = f"MALA-d{d}"
        K = mh.KernelUnderTest(MALA(0.2), LogPDF(mh.corr, n_dims=d), mh.DATA, d)
        p, u = K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
        if not ctx.check(len(p) >= d and len(u) >= 1, f"{name}:slots", f"proposal uses {len(p)} independent draws in {d} dimensions and the decision {len(u)}"):
            continue
        assert len(p) == d, "kernel draws more words than dimensions"
        xs, zs = mh.star(d, 0.5, 0.3), mh.star(d, 1.2, 0.013)
        proposal_law(ctx, name, K, xs, zs, 0.2)
        mh.check_detailed_balance(ctx, name, K, xs, zs)


def edges(ctx):
    for t in (mh.hole, mh.island):
        mh.check_edges(ctx, f"MALA-{t.__name__}", MALA(0.9), 1, mh.grid(np.linspace(-1.75, 1.75, 8), 1), t, 15 if ctx.thorough else 9)
    mh.check_edges(ctx, "MALA-hole-d2", MALA(0.9), 2, mh.grid([-0.6, 0.5, 1.3], 2), mh.hole, 7)


PARTS = {
    "scales": (scales, {"x64": True}),
    "edges": (edges, {"x64": True}),
    "many_dims": (many_dims, {"x64": True}),
    "d4": (make([mh.corr], 4, [0.5], 2, 2), {"x64": True}),
    "d1": (make([mh.gauss1, mh.quartic, mh.bimodal], 1, [0.3, 1.1], 9, 9), {"x64": True}),
    "d2": (make([mh.corr, mh.banana], 2, [0.6], 4, 3), {"x64": True}),
    "d2m": (make([mh.corr, mh.banana], 2, [jnp.diag(jnp.array([0.4, 0.9]))], 4, 3), {"x64": True}),
    "d3": (make([mh.corr], 3, [0.5], 2, 2), {"x64": True}),
}
