"""C04: flow proposals are a valid independence Metropolis-Hastings sampler."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
import mh
import stubs
import tape as T
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline

LEVEL = "model_checking"
BOUNDS = ("lattice flows: every outcome of every proposal and acceptance draw (M quantiles each, q and acceptance ratios multiples of 1/M) from "
          "every initial state, for the listed (n_steps, batch size), also with a state of zero target density; the exact law of (state, flag) paths is compared with the explicit MH chain. "
          "Real flows: all (state, base draw) lattice pairs x 16 acceptance quantiles; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["jax.random's uniform/normal are correct functions of the bits they draw"]


def model_chain(q, w):
    """Explicit-state model: P[i][(j, flag)]."""
    K = len(q)
    P = []
    for i in range(K):
        row = {}
        stay = 0.0
        for j in range(K):
            a = min(1.0, w[j] / w[i]) if w[i] > 0 else float(w[j] > 0)  # between zero-density states: flagged as staying, see lattice()
            row[(j, 1)] = row.get((j, 1), 0) + q[j] * a
            stay += q[j] * (1 - a)
        row[(i, 0)] = row.get((i, 0), 0) + stay
        P.append({k: v for k, v in row.items() if v > 0})
    return P


def path_law(P, i, n):
    law = {(): (i, 1.0)}
    law = {((), i): 1.0}
    for _ in range(n):
        new = {}
        for (path, s), p in law.items():
            for (j, f), pr in P[s].items():
                k = (path + ((j, f),), j)
                new[k] = new.get(k, 0) + p * pr
        law = new
    return {k[0]: v for k, v in law.items()}


def lattice(ctx, q, w, M, n, batch, dims=1):
    q, w = np.array(q, float), np.array(w, float)
    K = len(q)
    name = f"lattice-K{K}-M{M}-n{n}-batch{batch}-d{dims}"
    with np.errstate(divide="ignore"):
        logpi = jnp.asarray(np.log(q * w))

    def target(x, data):
        # uses the user's data: a constant that must reach the target
        return logpi[jnp.round(x[0]).astype(int)] * data["one"]

    kern = NFProposal(stubs.LatticeFlow(q, dims), n_NFproposal_batch_size=batch)
    L = LogPDF(target, n_dims=dims)
    data = {"one": 1.0, "n_steps": n}

    def run(key, x):
        return kern.kernel(key, x, L(x, data), L, data)

    r = mc.guard(ctx, name + ":exception", lambda: T.discover(lambda k: run(k, jnp.zeros(dims))))
    if r is None:
        return
    tp, rec = r
    S = tp.S
    size = M**S
    assert size <= 1 << 21, f"{name}: too many draws ({S}) to enumerate"
    tapes = T.product_grid([T.quantiles(M)] * S)
    f = jax.jit(jax.vmap(run, in_axes=(0, None)))
    keys = tp.keys(tapes)
    P = model_chain(q, w)
    for i in range(K):
        pos, lp, acc = [np.asarray(a) for a in f(keys, jnp.full(dims, float(i)))]
        if not ctx.check(pos.shape == (size, n, dims) and lp.reshape(size, -1).shape == (size, n), name + ":shape", f"shape of positions {pos.shape}, log_prob {lp.shape} for n_steps={n}"):
            return
        lp = lp.reshape(size, n)
        acc = acc.reshape(size, n).astype(int)
        ctx.check((pos == pos[:, :, :1]).all(), name + ":mixed", "a recorded state mixes coordinates of different states")
        st = np.round(pos[:, :, 0]).astype(int)
        want = np.asarray(logpi)[st]
        e = np.abs(np.where(lp == want, 0, lp - np.where(lp == want, 0, want))).max()
        ctx.check(e < 1e-5, name + ":logprob", "recorded log-probability is not the target's at the recorded state", worst=float(e))
        if (w == 0).any():  # whether the only zero-density state "moves" to itself cannot be told, and does not matter
            prev = np.concatenate([np.full((size, 1), i), st[:, :-1]], 1)
            acc = np.where((w[st] == 0) & (prev == st), 0, acc)
        code = np.zeros(size, np.int64)
        for t in range(n):
            code = code * (2 * K) + st[:, t] * 2 + acc[:, t]
        vals, cnt = np.unique(code, return_counts=True)
        law = path_law(P, i, n)
        got = {}
        for v, c in zip(vals, cnt):
            path = []
            for t in range(n):
                path.append((int(v % (2 * K)) // 2, int(v % 2)))
                v //= 2 * K
            got[tuple(reversed(path))] = c / size
        bad = [(p, got.get(p, 0), law.get(p, 0)) for p in set(got) | set(law) if abs(got.get(p, 0) - law.get(p, 0)) > 1e-9]
        if bad:
            bad.sort(key=lambda b: -abs(b[1] - b[2]))
            ctx.violation(name + ":law", f"law of the path from state {i} differs from the exact chain: path {bad[0][0]} has probability {bad[0][1]:.6f}, must be {bad[0][2]:.6f} ({len(bad)} paths)", init=i, path=bad[0][0], got=bad[0][1], want=bad[0][2])
        ctx.count(states=len(law), transitions=size * n, traces=size)
        if i == 0:
            ctx.sample({"config": name, "init": 0, "paths": len(law), "executions": size, "most_likely": str(max(law, key=law.get))})


Q2, W2 = [0.5, 0.5], [1, 0.5]
Q3, W3 = [0.5, 0.25, 0.25], [1, 2, 4]
Q4, W4 = [0.5, 0.25, 0.125, 0.125], [2, 8, 1, 4]


def part_small(ctx):
    for n in (1, 2):
        for b in (1, 2, 3, 100):
            lattice(ctx, Q4, W4, 8, n, b)
    lattice(ctx, Q3, W3, 4, 2, 1, dims=2)
    for n, b in ((1, 1), (2, 1), (2, 5)):  # a state of zero target density: left at the first chance, never entered
        lattice(ctx, Q3, [1, 0, 4], 4, n, b)


def part_mid(ctx):
    for n, b in ((3, 1), (3, 2), (3, 3), (3, 7)):
        lattice(ctx, Q3, W3, 4, n, b)
    lattice(ctx, Q3, [2, 1, 0], 4, 3, 2)


def part_mid4(ctx):
    for n, b in ((4, 2), (4, 3), (4, 100)):
        lattice(ctx, Q3, W3, 4, n, b)


def part_long(ctx):
    for n, b in ((5, 2), (5, 3), (6, 2), (6, 4), (7, 3), (7, 5)):
        lattice(ctx, Q2, W2, 2, n, b)


def part_thorough(ctx):
    for n, b in itertools.product((5, 6, 7, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9)):
        lattice(ctx, Q2, W2, 2, n, b)
    for n, b in itertools.product((3, 4), (1, 2, 3, 4, 5)):
        lattice(ctx, Q3, W3, 4, n, b)
        lattice(ctx, [0.25, 0.5, 0.25], [2, 1, 4], 4, n, b, dims=2)


def real_models():
    k = jax.random.PRNGKey(0)
    mean, cov = jnp.array([0.7, -0.4]), jnp.array([[2.0, 0.3], [0.3, 0.5]])
    return {
        "RealNVP": stubs.bend(RealNVP(2, 3, 4, k, data_mean=mean, data_cov=cov)),
        "RQSpline": stubs.bend(MaskedCouplingRQSpline(2, 2, [4], 3, k, spline_range=(-3.0, 3.0), data_mean=mean, data_cov=cov)),
    }


def real(ctx, which):
    model = real_models()[which]
    xs = mh.grid([-1.0, 0.4, 2.1], 2)
    zs = mh.grid(np.linspace(-1.6, 1.5, 4 if not ctx.thorough else 8), 2)
    M = 16
    kern = NFProposal(model, n_NFproposal_batch_size=10)
    for tname, L in (("flow", lambda x, d: model.log_prob(x)), ("corr", mh.corr)):
        data = {**mh.DATA, "n_steps": 1}

        def run(key, x, c):
            def boosted(y, dat):
                return L(y, dat) + c * jnp.any(y != x)

            p, lp, a = kern.kernel(key, x, L(x, data), boosted, data)
            return p[0], jnp.reshape(lp, ()), jnp.reshape(a, ())

        tp, rec = T.discover(lambda k: run(k, jnp.zeros(2), 0.0))
        f = jax.jit(jax.vmap(run))
        name = f"{which}-{tname}"
        # words that move the proposal
        base = np.full((1, tp.S), 2**31, np.uint32)
        prop = []
        for s in range(tp.S):
            t = np.repeat(base, 2, 0)
            t[1, s] = 2**30
            y = np.asarray(f(tp.keys(t), jnp.zeros((2, 2)), jnp.full(2, 1e6))[0])
            if np.abs(y[0] - y[1]).max() > 0:
                prop.append(s)
        dec = [s for s in range(tp.S) if s not in prop]
        if not ctx.check(len(prop) == 2 and dec, name + ":slots", f"{len(prop)} proposal draws, {len(dec)} decision draws"):
            continue
        n = len(xs) * len(zs)
        X = np.repeat(xs, len(zs), 0)
        t = np.full((n, tp.S), 2**31, np.uint32)
        t[:, prop] = T.z_to_bits(np.tile(zs, (len(xs), 1)))
        Y, _, acc = [np.asarray(a) for a in f(tp.keys(t), jnp.asarray(X), jnp.full(n, 1e6))]
        ctx.check(acc.all(), name + ":reveal", "a proposal of overwhelming density was rejected")
        lv = jax.jit(jax.vmap(lambda x: L(x, data)))
        qv = jax.jit(jax.vmap(model.log_prob))
        logr = np.asarray(lv(Y) - lv(X) - qv(Y) + qv(X))
        if tname == "flow":
            ctx.check(np.abs(logr).max() < 1e-9, name + ":self", "log-density of the same point differs between two evaluations")
        ub = T.quantiles(M)
        tt = np.repeat(t, M, 0)
        tt[:, dec] = np.tile(ub, n)[:, None]
        XX = np.repeat(X, M, 0)
        for alpha in (0.5, 0.25, None):
            c = np.zeros(n) if alpha is None else np.log(alpha) - logr
            want = np.minimum(1, np.exp(logr + c)) * M
            y, lp, a = [np.asarray(v) for v in f(tp.keys(tt), jnp.asarray(XX), jnp.repeat(jnp.asarray(c), M))]
            cnt = a.astype(int).reshape(n, M).sum(1)
            bad = np.abs(cnt - want) > 0.5 + 1e-3
            i = int(np.argmax(bad))
            ctx.check(not bad.any(), name + ":ratio", f"acceptance count {cnt[i]}/{M}, wanted {want[i]:.3f}", x=X[i], y=Y[i], log_r=float(logr[i]))
            ctx.count(transitions=n * M, traces=n * M)
            mv = a.astype(bool)
            ctx.check((y[mv] == np.repeat(Y, M, 0)[mv]).all() and (y[~mv] == XX[~mv]).all(), name + ":state", "returned position is neither proposal nor current position")
        ctx.count(states=len(xs))


class WavyFlow(stubs.UniformFlow):
    """samples uniform points, and claims a rough density for them"""

    def log_prob(self, x):
        return 3.0 * jnp.sum(jnp.sin(20.0 * x), -1)


def large(ctx):
    """Long proposals: one target accepts every proposal and so reveals them all; on a target that ranks the points (after the flow's density is
    taken off) without ties the path must then be the running maximum, whatever the draws of the acceptance step."""
    for n, batch, d in ((40, 7, 1), (64, 64, 6), (200, 33, 2), (200, 1, 2), (1000, 100, 3), (1000, 10000, 12), (300, 299, 2), (65, 2, 17)):
        m = WavyFlow(d)
        kern = NFProposal(m, n_NFproposal_batch_size=batch)
        name = f"large-n{n}-batch{batch}-d{d}"
        x0 = jnp.full(d, 0.21)

        def run(key, slope, skew):
            t = lambda x, data: m.log_prob(x) + slope * x[0] + skew * (x[0] == x0[0]) * 1e6
            return kern.kernel(key, x0, t(x0, None), t, {"n_steps": n}), t

        f = jax.jit(lambda key, slope, skew: run(key, slope, skew)[0])
        for seed in range(3):
            key = jax.random.PRNGKey(17 * seed + ctx.seed)
            r = mc.guard(ctx, name + ":exception", lambda: [np.asarray(v) for v in f(key, 0.0, 0.0)])
            if r is None:
                break
            Y = r[0]
            if not ctx.check(Y.shape == (n, d) and len(np.unique(Y, axis=0)) == n and len(np.unique(Y)) == n * d, name + ":reveal", f"{len(np.unique(Y, axis=0))} different positions in {n} steps on a target proportional to the flow's density: a proposal is refused or used twice"):
                break
            ctx.check(r[2].reshape(-1).all() and np.allclose(r[1].reshape(-1), np.asarray(m.log_prob(jnp.asarray(Y))), atol=1e-4), name + ":reveal-flags", "flags or log-probabilities of accepted proposals are wrong")
            pos, lp, acc = [np.asarray(v) for v in f(key, 1e12, 0.0)]
            cur, want, flag = np.asarray(x0), [], []
            for y in Y:
                a = y[0] >= cur[0]
                cur = y if a else cur
                want.append(cur)
                flag.append(a)
            want = np.array(want)
            bad = (pos != want).any(1) | (acc.reshape(-1).astype(bool) != np.array(flag))
            t = run(key, 1e12, 0.0)[1]
            ctx.check(not bad.any(), name + ":path", f"step {int(np.argmax(bad)) + 1} of {n}: the path leaves the Metropolis-Hastings rule", got=pos[int(np.argmax(bad))], want=want[int(np.argmax(bad))])
            ctx.check(np.allclose(lp.reshape(-1), np.asarray(jax.vmap(lambda x: t(x, None))(jnp.asarray(want))), rtol=1e-6), name + ":logprob", "recorded log-probabilities are not the target's at the recorded states")
            pos, lp, acc = [np.asarray(v) for v in f(key, 0.0, 1.0)]
            ctx.check((pos == np.asarray(x0)).all() and not acc.any(), name + ":stay", "a proposal of vanishing density is accepted")
            ctx.count(states=n, transitions=3 * n, traces=3)
    ctx.sample({"last": name})


PARTS = {
    "large": (large, {"x64": True}),
    "small": (part_small, {"x64": True}),
    "mid": (part_mid, {"x64": True}),
    "mid4": (part_mid4, {"x64": True}),
    "long": (part_long, {"x64": False}),
    "realnvp": (lambda c: real(c, "RealNVP"), {"x64": True}),
    "rqspline": (lambda c: real(c, "RQSpline"), {"x64": True}),
    "many": (part_thorough, {"x64": False, "thorough_only": True}),
}
