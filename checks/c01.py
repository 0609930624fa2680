"""C01: the Gaussian random walk leaves the target invariant."""
import jax.numpy as jnp
import numpy as np

import mh
import tape as T
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import LogPDF

LEVEL = "model_checking"
BOUNDS = ("all pairs (state of the lattice, proposal draw of the lattice) x all acceptance draws of a 16-quantile grid plus "
          "1/2(1+-1e-4) and 2^-22, for each target/step size/dimension; every transition is an execution of the real kernel under the tape PRNG")
ASSUMPTIONS = [
    "jax.random's sampling transforms (normal, uniform) are correct functions of the bits they draw",
    "x64 arithmetic; a ratio error below 1e-4 relative is not distinguished",
]


def proposal_law(ctx, name, K, xs, zs, step):
    """Y(x,z) - x has the law of step*N(0,1) and does not depend on x."""
    d = K.d
    S = np.asarray(step, float)
    A = S * np.eye(d) if S.ndim <= 1 else S
    X = np.repeat(xs, len(zs), 0)
    Z = T.bits_to_z(T.z_to_bits(np.tile(zs, (len(xs), 1))))
    D = (K.Y(X, Z)[0] - X).reshape(len(xs), len(zs), d)
    ctx.check(np.abs(D - D[:1]).max() < 1e-9, f"{name}:shift", "the random-walk displacement depends on the current position", worst=float(np.abs(D - D[:1]).max()))
    J = K.jac(xs[:1], np.zeros((1, d)))[0]
    C = J @ J.T
    W = A @ A.T
    ctx.check(np.abs(C - W).max() < 1e-4 * np.abs(W).max(), f"{name}:scale", f"the displacement covariance is not step_size**2: got {C.tolist()}, wanted {W.tolist()}")
    lin = (J @ Z[: len(zs)].T).T
    ctx.check(np.abs(D[0] - lin).max() < 1e-4 * (1 + np.abs(lin).max()), f"{name}:gauss", "the displacement is not Gaussian centred at 0", worst=float(np.abs(D[0] - lin).max()))
    # rare draws, far out in both tails
    far = np.concatenate([s * z * np.eye(d) for z in (3.3, 4.1, 4.8, 5.2) for s in (1, -1)])
    D = K.Y(np.repeat(xs[:1], len(far), 0), T.bits_to_z(T.z_to_bits(far)))[0] - xs[:1]
    lin = (J @ T.bits_to_z(T.z_to_bits(far)).T).T
    e = np.abs(D - lin).max(1) / np.abs(lin).max(1)
    ctx.check((e < 2e-3).all(), f"{name}:tails", f"a draw of {far[int(e.argmax())].tolist()} standard deviations moves the walk by {D[int(e.argmax())].tolist()}, must be {lin[int(e.argmax())].tolist()}")
    ctx.count(transitions=len(xs) * len(zs) + len(far))


def make(targets, d, steps, nx, nz):
    def part(ctx):
        n = 1 if ctx.thorough else 0
        xs = mh.grid(np.linspace(-2, 2, nx + (4 if ctx.thorough else 0)), d)
        zs = mh.grid(np.linspace(-2.2, 2.2, nz + (4 if ctx.thorough else 0)) + 0.013, d)
        for L in targets:
            for st in steps:
                name = f"GRW-{L.__name__}-d{d}-step{np.asarray(st).tolist()}"
                K = mh.KernelUnderTest(GaussianRandomWalk(st), LogPDF(L, n_dims=d), mh.DATA, d)
                p, u = K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
                if not ctx.check(len(p) >= d and len(u) >= 1, f"{name}:slots", f"proposal uses {len(p)} independent draws in {d} dimensions and the decision {len(u)}"):
                    continue
                assert len(p) == d, "kernel draws more words than dimensions"
                proposal_law(ctx, name, K, xs, zs, st)
                mh.check_detailed_balance(ctx, name, K, xs, zs, tol=1e-4)
    return part


def scales(ctx):
    """Very small and very large steps, and unnormalised densities of other magnitudes."""
    for L, st, f in ((mh.steep, 0.02, 1.0), (mh.wide, 40.0, 40.0), (mh.wide, 3.0, 100.0), (mh.far(-2e4), 0.7, 1.0), (mh.far(3e4), 0.7, 1.0), (mh.flat, 0.7, 1.0)):
        xs, zs = f * mh.grid(np.linspace(-2, 2, 5), 1), mh.grid(np.linspace(-2.2, 2.2, 5) + 0.013, 1)
        name = f"GRW-{L.__name__}-step{st}"
        K = mh.KernelUnderTest(GaussianRandomWalk(st), LogPDF(L, n_dims=1), mh.DATA, 1)
        K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
        assert len(K.prop) == 1
        proposal_law(ctx, name, K, xs, zs, st)
        mh.check_detailed_balance(ctx, name, K, xs, zs, tol=1e-4)


def many_dims(ctx):
    for d in (5, 8, 13):
        name = f"GRW-d{d}"
        K = mh.KernelUnderTest(GaussianRandomWalk(0.4), LogPDF(mh.corr, n_dims=d), mh.DATA, d)
        p, u = K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
        if not ctx.check(len(p) >= d and len(u) >= 1, f"{name}:slots", f"proposal uses {len(p)} independent draws in {d} dimensions and the decision {len(u)}"):
            continue
        assert len(p) == d, "kernel draws more words than dimensions"
        xs, zs = mh.star(d), mh.star(d, 1.2, 0.013)
        proposal_law(ctx, name, K, xs, zs, 0.4)
        mh.check_detailed_balance(ctx, name, K, xs, zs, tol=1e-4)


def edges(ctx):
    for t in (mh.hole, mh.island):
        mh.check_edges(ctx, f"GRW-{t.__name__}", GaussianRandomWalk(0.9), 1, mh.grid(np.linspace(-1.75, 1.75, 8), 1), t, 15 if ctx.thorough else 9)
    mh.check_edges(ctx, "GRW-hole-d2", GaussianRandomWalk(0.9), 2, mh.grid([-0.6, 0.5, 1.3], 2), mh.hole, 7)


PARTS = {
    "scales": (scales, {"x64": True}),
    "edges": (edges, {"x64": True}),
    "many_dims": (many_dims, {"x64": True}),
    "d4": (make([mh.corr], 4, [0.5], 2, 2), {"x64": True}),
    "d1": (make([mh.gauss1, mh.quartic, mh.bimodal], 1, [0.3, 1.7], 9, 9), {"x64": True}),
    "d2": (make([mh.corr, mh.banana], 2, [0.6, jnp.array([0.3, 1.1])], 4, 3), {"x64": True}),
    "d3": (make([mh.corr], 3, [0.5], 2, 2), {"x64": True}),
}
