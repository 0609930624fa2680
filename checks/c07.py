"""C07: chains are independent and chain batching is transparent."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
import stubs
import tape as T
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps

LEVEL = "model_checking"
BOUNDS = ("batching: all (2, 3, 5 chains - 7 and 9 too for the random walk and the flow - every batch size up to two more than the chains, steps 3/4, thinning 1-2) for every kernel, two successive calls, against the unbatched run; plus every "
          "assignment of draw quantiles to every draw of 3 chains in batches of 2; independence: every assignment of 4 start points (inside, far, "
          "zero density, NaN density) to 3-4 chains - a chain's history may only be a function of its own start; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["equality to 1e-5 relative (XLA may vectorise batches of different sizes differently), acceptance flags exactly"]

DATA = {"s": 1.3}


def target(x, data):
    v = -0.5 * jnp.sum((x - 0.2) ** 2) * data["s"] - 0.1 * jnp.sum(x**4)
    v = jnp.where(x[0] > 3.0, -jnp.inf, v)
    return jnp.where(x[0] < -3.0, jnp.nan, v)


def setups():
    k = jax.random.PRNGKey(5)
    nvp = stubs.bend(RealNVP(2, 2, 4, k))
    return {
        "GRW": (TakeSerialSteps, GaussianRandomWalk(0.9)),
        "MALA": (TakeSerialSteps, MALA(0.9)),
        "HMC": (TakeSerialSteps, HMC(jnp.array([[1.2, 0.3], [0.3, 0.8]]), 0.9, 2)),
        "NF": (TakeGroupSteps, NFProposal(nvp, n_NFproposal_batch_size=2)),
    }


def strat(cls, n, t=1, b=0):
    return cls("logpdf", "kernel", "state", ["p", "l", "a"], n, thinning=t, chain_batch_size=b)


def starts(C, d=2):
    return (0.31 * np.arange(C)[:, None] - 0.4 + 0.17 * np.arange(d)[None, :]).astype(np.float32)


def calls(cls, kernel, C, n, t, b, key, x0, ncalls=2):
    per = -(-n // t)
    res = stubs.step_resources(kernel, LogPDF(target, n_dims=2), C, 2, ncalls * per)
    s = strat(cls, n, t, b)
    pos = x0
    for _ in range(ncalls):
        key, res, pos = s(key, res, pos, DATA)
    return key, res["P"].data, res["L"].data, res["A"].data, pos


NAMES = ("key", "position", "log-probability", "acceptance", "returned position")


def close(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-5 * (1 + np.abs(b)))))


def batching(which):
    def part(ctx):
        cls, kern = setups()[which]
        key = jax.random.PRNGKey(11 + ctx.seed)
        shapes = [(3, 1), (4, 2)] if not ctx.thorough else [(n, t) for n in range(1, 6) for t in (1, 2, 3)]
        Cs = (2, 3, 5, 7, 9) if not ctx.thorough else range(1, 13)
        for C, (n, t) in itertools.product(Cs, shapes):
            if not ctx.thorough and (n, t) != (3, 1) and C != 3:
                continue
            if not ctx.thorough and C > 5 and which in ("MALA", "HMC"):
                continue
            x0 = jnp.asarray(starts(C))
            ref = calls(cls, kern, C, n, t, 0, key, x0)
            moved = np.asarray(ref[3]) == 1
            ctx.bump("accepted", moved.sum())
            ctx.bump("rejected", (~moved).sum())
            for b in range(1, C + 3):
                k = f"{which}-C{C}-b{b}-n{n}-t{t}"
                got = mc.guard(ctx, k + ":exception", lambda: calls(cls, kern, C, n, t, b, key, x0))
                ctx.count(states=1, transitions=2, traces=1)
                if got is None:
                    continue
                for nm, g, w in zip(NAMES, got, ref):
                    ok = np.array_equal(g, w) if nm in ("acceptance", "key") else close(g, w)
                    ctx.check(ok, k + ":" + nm, f"{nm} changes when {C} chains are sampled in batches of {b} (n_steps {n}, thinning {t})", batched=g, unbatched=w)
        ctx.sample({"kernel": which, "chains": list(Cs), "batches": "1..C+2", "steps_thinning": shapes})
    return part


def large(which):
    """Many chains and large batches; many steps."""
    def part(ctx):
        cls, kern = setups()[which]
        key = jax.random.PRNGKey(23 + ctx.seed)
        for C, n, bs in ((71, 3, (8, 32, 64, 70, 71)), (48, 2, (16, 47)), (13, 2, (5,)), (4, 60, (2, 3))):
            x0 = jnp.asarray(np.stack([np.sin(np.arange(C)), np.cos(2.0 * np.arange(C))], 1), jnp.float32)
            ref = calls(cls, kern, C, n, 1, 0, key, x0)
            for b in bs:
                k = f"{which}-C{C}-b{b}-n{n}"
                got = mc.guard(ctx, k + ":exception", lambda: calls(cls, kern, C, n, 1, b, key, x0))
                ctx.count(states=1, transitions=2, traces=1)
                if got is None:
                    continue
                for nm, g, w in zip(NAMES, got, ref):
                    g, w = np.asarray(g, np.float64), np.asarray(w, np.float64)
                    ok = g.shape == w.shape and bool(np.all((g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= 1e-3 * (1 + np.abs(w)))))
                    ctx.check(ok, k + ":" + nm, f"{nm} changes when {C} chains are sampled in batches of {b} (n_steps {n})")
    return part


def tapes(which):
    def part(ctx):
        cls, kern = setups()[which]
        if which == "NF":
            kern = NFProposal(stubs.LatticeFlow([0.25, 0.25, 0.5], 2), n_NFproposal_batch_size=2)
        C, n, d = 3, 1, 2
        m = 3 if not ctx.thorough else 4
        x0 = jnp.asarray(starts(C))

        def run(b):
            def f(key):
                return calls(cls, kern, C, n, 1, b, key, x0, 1)[1:]
            return f

        tp, _ = T.discover(run(0))
        axes = []
        for s in range(tp.S):
            q = np.concatenate([T.quantiles(m - 1), [np.uint32(2**32 - 2**14)]]).astype(np.uint64)
            axes.append((q - np.uint64(2003 * (s + 1))).astype(np.uint32))
        grid = T.product_grid(axes)
        if len(grid) > 20000 and not ctx.thorough:
            # thin the alphabet, keep it a full product
            axes = [a[[0, -1]] for a in axes]
            grid = T.product_grid(axes)
        keys = tp.keys(grid)
        ref = jax.jit(jax.vmap(run(0)))(keys)
        pats = len(np.unique(np.asarray(ref[2]).reshape(len(grid), -1), axis=0))
        ctx.bump("acceptance_patterns", pats)
        ctx.reach(pats > 1, "several acceptance patterns")
        for b in (2, 3, 4):
            got = mc.guard(ctx, f"{which}-tape-b{b}:exception", lambda: jax.jit(jax.vmap(run(b)))(keys))
            if got is None:
                continue
            for nm, g, w in zip(NAMES[1:], got, ref):
                g, w = np.asarray(g, np.float64), np.asarray(w, np.float64)
                bad = ~(np.abs(g - w) <= 1e-5 * (1 + np.abs(w))).reshape(len(grid), -1).all(1)
                ctx.check(not bad.any(), f"{which}-tape-b{b}:{nm}", f"{nm} differs between batches of {b} and no batching for {bad.sum()} of {len(grid)} draw assignments", tape=grid[np.argmax(bad)])
            ctx.count(states=len(grid), transitions=len(grid) * C * n, traces=len(grid))
        ctx.sample({"kernel": which, "draw_assignments": len(grid), "draws": tp.S, "patterns": pats})
    return part


ALPH = [np.array([0.1, -0.2]), np.array([2.5, 1.5]), np.array([4.0, 0.3]), np.array([-4.0, 0.3])]


def independence(which):
    def part(ctx):
        cls, kern = setups()[which]
        key = jax.random.PRNGKey(3 + ctx.seed)
        C = 3 if not ctx.thorough else 4
        combos = np.array(list(itertools.product(range(4), repeat=C)))
        X = np.stack([np.stack([ALPH[i] for i in c]) for c in combos]).astype(np.float32)
        for n, b in ((3, 0), (2, 2)):
            f = jax.jit(jax.vmap(lambda x0: calls(cls, kern, C, n, 1, b, key, x0, 2)[1:]))
            out = mc.guard(ctx, f"{which}-n{n}-b{b}:exception", lambda: f(jnp.asarray(X)))
            if out is None:
                continue
            ctx.count(states=len(X), transitions=len(X) * C * n * 2, traces=len(X))
            for nm, o in zip(NAMES[1:], out):
                o = np.asarray(o)
                for j in range(C):
                    for v in range(4):
                        grp = o[combos[:, j] == v][:, j]
                        same = np.all((grp == grp[0]) | (np.isnan(grp) & np.isnan(grp[0])))
                        if not same:
                            i = int(np.argmax([not np.array_equal(g, grp[0], equal_nan=True) for g in grp]))
                            ctx.violation(f"{which}-n{n}-b{b}-chain{j}:{nm}", f"{nm} history of chain {j} changes when only other chains start elsewhere", starts_a=combos[combos[:, j] == v][0], starts_b=combos[combos[:, j] == v][i], a=grp[0], b=grp[i])
        # chains with the same start must still differ from each other (own randomness): over all pairs,
        # starts and keys, some histories differ (a single pair may coincide, both chains rejecting everything)
        E = X[[i for i, c in enumerate(combos) if len(set(c)) == 1 and c[0] < 2]]
        f = jax.jit(jax.vmap(lambda k, x0: calls(cls, kern, C, 3, 1, 0, k, x0, 2)[1], in_axes=(0, None)))
        ks = jnp.stack([jax.random.PRNGKey(s + ctx.seed) for s in range(16)])
        for i, j in itertools.combinations(range(C), 2):
            P = mc.guard(ctx, f"{which}-shared:exception", lambda: np.stack([np.asarray(f(ks, jnp.asarray(e))) for e in E]))
            if P is not None:
                ctx.check((P[:, :, i] != P[:, :, j]).any(), f"{which}-shared", f"chains {i} and {j}, started at the same point, have the same history for each of 16 keys")
        ctx.sample({"kernel": which, "chains": C, "start_assignments": len(X)})
    return part


PARTS = {}
for _w in ("GRW", "MALA", "HMC", "NF"):
    PARTS["batch_" + _w] = (batching(_w), {})
    PARTS["large_" + _w] = (large(_w), {})
    PARTS["tape_" + _w] = (tapes(_w), {})
    PARTS["indep_" + _w] = (independence(_w), {})
