"""C05: recorded histories are self-consistent and stay inside the support."""
import jax
import jax.numpy as jnp
import numpy as np

import mc
import stubs
import tape as T
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps

LEVEL = "model_checking"
BOUNDS = ("every assignment of an alphabet of draw values (0, largest below 1, quantiles) to every draw of 1-3 step histories of 1-2 chains, for each "
          "kernel, both step strategies, targets with zero-density and NaN regions, caller data whose keys coincide with internal names; executed on the real strategy call; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["float32 arithmetic; log-probabilities compared to 2e-5 relative"]


def hole(x, data):
    return jnp.where(jnp.all(x < 0.8), -0.5 * jnp.sum(x**2) * data["s"], -jnp.inf)


def nanregion(x, data):
    return jnp.where(jnp.any(x < -0.6), jnp.nan, -0.5 * jnp.sum((x - 0.3) ** 2) * data["s"])


def gamma(x, data):
    return jnp.sum(2.0 * jnp.log(x) - x * data["s"])  # NaN below 0, -inf at 0


def posinf_wall(x, data):
    return jnp.where(jnp.any(x > 1.0), -jnp.inf, jnp.where(jnp.any(x < -1.0), jnp.nan, 0.0 * jnp.sum(x)))


def low(x, data):
    return hole(x, data) - 3.0e5


def high(x, data):
    return hole(x, data) + 4.0e5


def faint(x, data):
    return 1e-3 * hole(x, data) - 5.0e8


DATA = {"s": 1.3}


def alphabet(m):
    return np.concatenate([[T.BITS0], T.quantiles(m), [T.BITSMAX]]).astype(np.uint32)


def jitter(vals, slot, exact=True):
    """Distinct draws get slightly different values, so that two draws never coincide
    and no normal draw is exactly 0; the extremes stay exact."""
    v = np.asarray(vals, np.uint64)
    inner = (v != T.BITS0) & (v != T.BITSMAX)
    off = np.uint64(0 if exact else 4096 * (slot + 1))
    edge = np.where(v == T.BITS0, v + off, v - off)
    return np.where(inner, v + np.uint64(1000003 * (slot + 1)), edge).astype(np.uint32)


def check_history(ctx, name, x0, P, Lg, A, target, data, lattice=False):
    """x0 (N,C,d); P (N,C,n,d); Lg, A (N,C,n)"""
    N, C, n, d = P.shape
    tv = jax.jit(jax.vmap(lambda x: target(x, data)))
    want = np.asarray(tv(jnp.asarray(P.reshape(-1, d)))).reshape(N, C, n)
    first = np.asarray(tv(jnp.asarray(x0.reshape(-1, d), jnp.float32))).reshape(N, C, 1)
    fin = np.isfinite(np.concatenate([first, want], 2))
    ok = np.isfinite(want)
    left = fin[..., :-1] & ~ok  # a state outside the support directly after one inside
    if left.any():
        i = np.argwhere(left)[0]
        ctx.violation(name + ":support", f"a recorded state has log-density {want[tuple(i)]} at step {i[2]} although the state before it is inside the support", x0=x0[i[0]], history=P[i[0], i[1]], log_prob=Lg[i[0], i[1]], accept=A[i[0], i[1]])
    with np.errstate(invalid="ignore"):
        same = (Lg == want) | (np.isnan(Lg) & np.isnan(want)) | (np.abs(Lg - want) <= 2e-5 * (1 + np.abs(want)))
    bad = ~same
    if bad.any():
        i = np.argwhere(bad)[0]
        ctx.violation(name + ":logprob", f"recorded log-probability {Lg[tuple(i)]} at step {i[2]}, target value there {want[tuple(i)]}", x0=x0[i[0]], history=P[i[0], i[1]], log_prob=Lg[i[0], i[1]])
    prev = np.concatenate([x0[:, :, None, :], P[:, :, :-1]], 2)
    moved = (P != prev).any(-1)
    bin_ = (A == 0) | (A == 1)
    ctx.check(bin_.all(), name + ":flag", "an acceptance entry is neither 0 nor 1")
    bad = (moved & (A != 1)) | ((~moved & (A != 0)) if not lattice else np.zeros_like(moved))
    if bad.any():
        i = np.argwhere(bad)[0]
        ctx.violation(name + ":accept", f"acceptance {A[tuple(i)]} at step {i[2]} but the chain {'moved' if moved[tuple(i)] else 'stayed'}", x0=x0[i[0]], history=P[i[0], i[1]], accept=A[i[0], i[1]])
    ctx.bump("moves", moved.sum())
    ctx.bump("stays", (~moved).sum())
    return want


def explore(ctx, name, make_strategy, kernel, target, x0s, C, d, n, vals, data=DATA, lattice=False, max_words=10, exact=True, outside=False):
    """All tapes over `vals` for every initial configuration in x0s (list of (C,d))."""
    L = LogPDF(target, n_dims=d)

    def run(key, x0):
        res = stubs.step_resources(kernel, L, C, d, n)
        s = make_strategy(n)
        _, res, last = s(key, res, x0, data)
        return res["P"].data, res["L"].data, res["A"].data, last

    if mc.guard(ctx, name + ":exception", lambda: run(jax.random.PRNGKey(1), jnp.asarray(x0s[0])), traced=False) is None:
        return
    r = mc.guard(ctx, name + ":exception", lambda: T.discover(lambda k: run(k, jnp.asarray(x0s[0]))))
    if r is None:
        return
    tp, _ = r
    assert tp.S <= max_words, f"{name}: {tp.S} draws"
    tapes = T.product_grid([jitter(vals, s, exact) for s in range(tp.S)])
    f = jax.jit(jax.vmap(run, in_axes=(0, None)))
    keys = tp.keys(tapes)
    outcomes = set()
    for x0 in x0s:
        P, Lg, A, last = [np.asarray(a) for a in f(keys, jnp.asarray(x0))]
        X0 = np.repeat(np.asarray(x0, np.float32)[None], len(tapes), 0)
        check_history(ctx, name, X0, P, Lg, A, target, data, lattice)
        ctx.check((last == P[:, :, -1]).all(), name + ":last", "returned position is not the last recorded one")
        outcomes |= {tuple(a.reshape(-1).astype(int)) for a in np.unique(A.reshape(len(A), -1), axis=0)}
        ctx.count(states=len(np.unique(P.reshape(-1, d), axis=0)), transitions=len(tapes) * n * C, traces=len(tapes))
    ctx.bump("acceptance_patterns", len(outcomes))
    # vacuity: with C chains and n steps every accept/reject pattern must occur
    if not lattice and not outside:
        ctx.reach(len(outcomes) == 2 ** (C * n), "every acceptance pattern")
    ctx.sample({"config": name, "executions": len(tapes) * len(x0s), "draws": tp.S, "patterns": len(outcomes)})


SERIAL = lambda n: TakeSerialSteps("logpdf", "kernel", "state", ["p", "l", "a"], n)
GROUP = lambda n: TakeGroupSteps("logpdf", "kernel", "state", ["p", "l", "a"], n)


def kernels():
    return {
        "GRW": GaussianRandomWalk(0.9),
        "MALA": MALA(0.8),
        "HMC": HMC(jnp.eye(1), 0.4, 2),
    }


def serial(which):
    def part(ctx):
        k = kernels()[which]
        m = 7 if not ctx.thorough else 12
        for t, x0s in ((hole, [-0.5, 0.7]), (nanregion, [-0.5, 0.9]), (gamma, [0.4, 2.0]), (posinf_wall, [0.0, 0.9])):
            xs = [np.full((1, 1), x, np.float32) for x in x0s]
            explore(ctx, f"{which}-{t.__name__}-1x2", SERIAL, k, t, xs, 1, 1, 2, alphabet(m))
        # unnormalised densities of any magnitude
        for t in (low, high, faint):
            explore(ctx, f"{which}-{t.__name__}", SERIAL, k, t, [np.full((1, 1), 0.7, np.float32)], 1, 1, 2, alphabet(4), outside=True)
        # a start of zero or undefined density: the history must say so until the chain enters
        # the support (no reachability claim: NaN starts never move)
        for t, x in ((hole, 1.1), (nanregion, -0.9), (posinf_wall, 1.3)):
            explore(ctx, f"{which}-{t.__name__}-outside", SERIAL, k, t, [np.full((1, 1), x, np.float32)], 1, 1, 2, alphabet(m), outside=True)
        # two chains: rows must not be mixed up
        explore(ctx, f"{which}-hole-2x1", SERIAL, k, hole, [np.array([[-0.5], [0.7]], np.float32)], 2, 1, 1, alphabet(7))
        explore(ctx, f"{which}-nan-1x3", SERIAL, k, nanregion, [np.array([[-0.5]], np.float32)], 1, 1, 3, alphabet(3 if not ctx.thorough else 6))
        # two dimensions
        k2 = HMC(jnp.array([[1.2, 0.4], [0.4, 0.9]]), 0.4, 2) if which == "HMC" else k
        explore(ctx, f"{which}-hole-d2", SERIAL, k2, hole, [np.array([[-0.5, 0.6]], np.float32)], 1, 2, 1, alphabet(14))
    return part


def group_lattice(ctx):
    # lattice flow that proposes states 2 (zero density) and 3 (NaN)
    tab = jnp.array([0.0, -0.7, -jnp.inf, jnp.nan, -1.4])
    target = lambda x, d: tab[jnp.round(x[0]).astype(int)] * d["s"]
    q = [0.25, 0.25, 0.125, 0.125, 0.25]
    vals = alphabet(4)
    for b in (1, 2, 100):
        k = NFProposal(stubs.LatticeFlow(q, 1), n_NFproposal_batch_size=b)
        explore(ctx, f"NF-lattice-b{b}-1x3", GROUP, k, target, [np.array([[s]], np.float32) for s in (0, 2, 4)], 1, 1, 3, alphabet(4) if b != 2 else alphabet(2), lattice=True)
    for off in (-3e5, 4e5):
        k = NFProposal(stubs.LatticeFlow(q, 1), n_NFproposal_batch_size=2)
        explore(ctx, f"NF-lattice{off:+g}", GROUP, k, lambda x, d: target(x, d) + off, [np.array([[s]], np.float32) for s in (0, 4)], 1, 1, 3, alphabet(2), lattice=True)
    k = NFProposal(stubs.LatticeFlow(q, 1), n_NFproposal_batch_size=100)
    explore(ctx, "NF-lattice-2x2", GROUP, k, target, [np.array([[0], [1]], np.float32)], 2, 1, 2, T.quantiles(4), lattice=True)


def group_real(ctx):
    k = jax.random.PRNGKey(3)
    nvp = stubs.bend(RealNVP(2, 2, 4, k, data_mean=jnp.array([0.3, 0.1]), data_cov=jnp.array([[1.5, 0.2], [0.2, 0.6]])))
    rqs = stubs.bend(MaskedCouplingRQSpline(2, 2, [4], 3, k, spline_range=(-3.0, 3.0)))
    for nm, m in (("RealNVP", nvp), ("RQSpline", rqs)):
        for b in (1, 100):
            kern = NFProposal(m, n_NFproposal_batch_size=b)
            for t in (hole, nanregion):
                explore(ctx, f"NF-{nm}-{t.__name__}-b{b}", GROUP, kern, t, [np.array([[0.2, 0.1]], np.float32)], 1, 2, 2, alphabet(2), exact=False)


def caller_data(ctx):
    """The target is given the caller's data: same keys, same values, whatever their names."""

    def strict(x, data):
        assert set(data) == {"s", "n_steps", "key", "logpdf"}, f"the target is given data with keys {sorted(data)}"
        return jnp.where(jnp.all(x < 0.8), -0.5 * jnp.sum(x**2) * data["s"] * data["n_steps"] / 40.0 * data["key"][1], -jnp.inf)

    tab = jnp.array([0.0, -0.7, -jnp.inf, jnp.nan, -1.4])

    def strict_lattice(x, data):
        assert set(data) == {"s", "n_steps", "key", "logpdf"}, f"the target is given data with keys {sorted(data)}"
        return tab[jnp.round(x[0]).astype(int)] * data["s"] * data["n_steps"] / 40.0

    for ns in (jnp.array(52.0), 60.0):
        data = {"s": 1.3, "n_steps": ns, "key": jnp.array([3.0, 0.9]), "logpdf": {"a": jnp.ones(2)}}
        h = f"n_steps{type(ns).__name__}"
        for which, k in kernels().items():
            explore(ctx, f"data-{which}-{h}", SERIAL, k, strict, [np.full((1, 1), 0.7, np.float32)], 1, 1, 2, alphabet(7), data=data)
        for b in (1, 2, 100):
            k = NFProposal(stubs.LatticeFlow([0.25, 0.25, 0.125, 0.125, 0.25], 1), n_NFproposal_batch_size=b)
            explore(ctx, f"data-NF-b{b}-{h}", GROUP, k, strict_lattice, [np.array([[s]], np.float32) for s in (0, 4)], 1, 1, 3, alphabet(2), data=data, lattice=True)


def large(ctx):
    """Long histories of many chains in several dimensions (ordinary keys): nothing may depend on the size."""
    def tilted(x, data):
        return jnp.where(x[0] < 1.5, -0.5 * jnp.sum((x - 0.1 * jnp.arange(x.shape[0])) ** 2) * data["s"], -jnp.inf)

    nvp = stubs.bend(RealNVP(5, 2, 4, jax.random.PRNGKey(3)), 0.2)
    sets = [("serial", k, v, n, 0) for k, v in {**kernels(), "HMC": HMC(jnp.eye(5), 0.4, 2)}.items() for n in (120,)]
    sets += [("serial", "GRW", GaussianRandomWalk(0.3), 700, 8), ("group", "NF-b50", NFProposal(nvp, n_NFproposal_batch_size=50), 130, 0), ("group", "NF-b1000", NFProposal(nvp, n_NFproposal_batch_size=1000), 300, 7)]
    for kind, nm, kern, n, b in sets:
        for C, d in ((33, 5),) if n < 500 else ((3, 2),):
            L = LogPDF(tilted, n_dims=d)
            k = f"large-{nm}-C{C}-n{n}"
            s = (TakeSerialSteps if kind == "serial" else TakeGroupSteps)("logpdf", "kernel", "state", ["p", "l", "a"], n, chain_batch_size=b)
            x0 = jnp.asarray(0.3 * np.sin(np.arange(C * d)).reshape(C, d), jnp.float32)
            pos, key = x0, jax.random.PRNGKey(ctx.seed + 17)
            for call in (1, 2):
                res = stubs.step_resources(kern, L, C, d, n)
                out = mc.guard(ctx, k + ":exception", lambda: s(key, res, pos, DATA))
                if out is None:
                    break
                s.set_current_position(0)
                key, res, last = out
                check_history(ctx, f"{k}-call{call}", np.asarray(pos)[None], *[np.asarray(res[q].data)[None] for q in "PLA"], tilted, DATA)
                ctx.check((np.asarray(last) == np.asarray(res["P"].data)[:, -1]).all(), k + ":last", "returned position is not the last recorded one")
                ctx.count(states=C * n, transitions=C * n, traces=C)
                pos = last


PARTS = {
    "large": (large, {}),
    "data": (caller_data, {}),
    "grw": (serial("GRW"), {}),
    "mala": (serial("MALA"), {}),
    "hmc": (serial("HMC"), {}),
    "nf_lattice": (group_lattice, {}),
    "nf_real": (group_real, {}),
}
