"""C15: repeated tempering steps are one Markov chain on the joint state."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import mc
import ptlib
import tape as T

LEVEL = "model_checking"
BOUNDS = ("every sequence of tempering calls up to the stated depth over {training, production} and {cold walker kept, cold walker moved between calls}, walkers "
          "followed individually through the real resources; exact joint transition law of one and of two successive calls for every joint state and every "
          "combination of draws on a grid on which all acceptance probabilities are represented exactly; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["64-bit floats in the harness", "acceptance probabilities are chosen as powers of two so that the draw grid is exact"]

LN2 = float(np.log(2.0))


class Walk(ptlib.Plain):
    """coordinate 0: identity tag, coordinate 1: number of steps taken."""

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        new = position.at[1].add(1.0)
        return new, logpdf(new, data), jnp.ones((), int)


def sequences(C, nt, large=False):
    def part(ctx):
        depth = 40 if large else 4 if not ctx.thorough else 6
        temps = np.array([1.0, 2.0, 4.0, 9.0][:nt]) if nt <= 4 else 1.0 + 1.5 * np.arange(nt)
        smooth = lambda x, data: -0.3 * jnp.cos(1.3 * x[0] + 0.7 * x[1])
        # walkers outside the support of the likelihood or of the prior are walkers like any other
        holed = lambda x, data: jnp.where(x[0] % 100 == 0, -jnp.inf, smooth(x, data))
        dead = lambda x, data: jnp.where(x[0] < 100, -jnp.inf, smooth(x, data))
        flat = lambda x, data: 0.0 * x[0]
        walled = lambda x, data: jnp.where(x[0] % 100 == nt - 1, -jnp.inf, 0.0)
        for n, ll, pri in ((1, smooth, flat), (2, smooth, flat), (1, holed, flat), (1, dead, flat), (1, smooth, walled)) if not large else ((5, smooth, flat), (33, holed, flat)):
            strat = ptlib.strategy(n)
            for flags in itertools.product((True, False), repeat=depth) if not large else ([i < depth // 2 for i in range(depth)], [i % 2 == 0 for i in range(depth)]):
                for moves in ([[i % 3 == 0 for i in range(depth)]] if large else ([0] * depth, [1] * depth, [0, 1] * (depth // 2))) if large or not ctx.thorough else itertools.product((0, 1), repeat=depth):
                    W = np.zeros((C, nt, 3))
                    W[:, :, 0] = np.arange(C)[:, None] * 100 + np.arange(nt)[None]
                    W[:, :, 2] = W[:, :, 0] / 8
                    r = ptlib.resources(Walk(), ll, pri, W, temps, True)
                    names = sorted(r)
                    shape = r["tp"].data.shape
                    pos = jnp.asarray(W)[:, 0]
                    key = jax.random.PRNGKey(3 + ctx.seed)
                    expect = W.copy()  # rows: walkers by level
                    h = f"C{C}-nt{nt}-n{n}{'-holed' * (ll is holed)}{'-dead' * (ll is dead)}{'-walled' * (pri is walled)}-{''.join('TP'[not f] for f in flags)}-{''.join(str(int(m)) for m in moves)}"
                    ok = True
                    for s, (fl, mv) in enumerate(zip(flags, moves)):
                        if mv:  # another sampler moves the cold walker in between
                            pos = pos.at[:, 2].add(1000.0)
                            expect[:, 0, 2] += 1000.0
                        r["state"].data["training"] = fl
                        key, r, pos = strat(key, r, pos, {})
                        got = np.concatenate([np.asarray(pos)[:, None], np.asarray(r["tp"].data)], 1)
                        expect[:, :, 1] += n
                        for c in range(C):
                            a = expect[c][np.argsort(expect[c][:, 0])]
                            b = got[c][np.argsort(got[c][:, 0])]
                            if not ctx.check(np.array_equal(a, b), "seq:" + ("training" if fl else "production") + f":C{C}-nt{nt}",
                                             f"call {s + 1} of {h} does not continue the walkers left by the previous call: expected (any order) {a.tolist()}, found {b.tolist()}"):
                                ok = False
                        ctx.check(r["tp"].data.shape == shape and sorted(r) == names, "seq:shape", "resources change shape")
                        ctx.count(transitions=1, states=C * nt)
                        if not ok:
                            break
                        expect = got.copy()
                    ctx.count(traces=1)
        ctx.sample({"depth": depth, "last": h, "walkers": got})
    return part


def unit_cases(thorough):
    # ladder, likelihood table, prior table, kernel, n_steps, M
    L2, P2 = [0.0, 2 * LN2], [0.0, -LN2]
    L3, P3 = [0.0, 2 * LN2, 2 * LN2], [0.0, 0.0, -LN2]
    out = [
        ("flip-12", [1.0, 2.0], L2, [0.0, 0.0], ptlib.Flip(), 1, 4),
        ("flip-12-prior", [1.0, 2.0], L2, P2, ptlib.Flip(), 1, 4),
        ("flip-12-n2", [1.0, 2.0], L2, P2, ptlib.Flip(), 2, 4),
        ("flip-24", [2.0, 4.0], [0.0, 4 * LN2], P2, ptlib.Flip(), 1, 4),
        ("flip-11", [1.0, 1.0], [0.0, LN2], [0.0, 0.0], ptlib.Flip(), 1, 4),
        ("cycle-12", [1.0, 2.0], L3, P3, ptlib.Cycle(3), 1, 8),
        ("flip-122", [1.0, 2.0, 2.0], L2, P2, ptlib.Flip(), 1, 4),
        ("flip-124", [1.0, 2.0, 4.0], [0.0, 4 * LN2], P2, ptlib.Flip(), 1, 8),
    ]
    if thorough:
        out += [("flip-122-n2", [1.0, 2.0, 2.0], L2, P2, ptlib.Flip(), 2, 4), ("flip-1222", [1.0, 2.0, 2.0, 2.0], L2, P2, ptlib.Flip(), 1, 4)]
    return out


def joint(ladder, L, P):
    K, nt = len(L), len(ladder)
    states = np.array(list(itertools.product(range(K), repeat=nt)))
    w = np.exp(sum(np.asarray(L)[states[:, j]] / t + np.asarray(P)[states[:, j]] for j, t in enumerate(ladder)))
    return states, w / w.sum()


def matrix(states, K, nt, outs):
    """outs (S, N, nt) -> S x S transition matrix"""
    code = (np.round(outs).astype(int) * (K ** np.arange(nt - 1, -1, -1))).sum(-1)
    return np.stack([np.bincount(c, minlength=len(states)) / len(c) for c in code])


def law(names):
    def part(ctx):
        for name, ladder, L, P, kern, n, M in unit_cases(ctx.thorough):
            if not any(name.startswith(x) for x in names):
                continue
            nt, K = len(ladder), len(L)
            states, pi = joint(ladder, L, P)
            ll = lambda x, data: jnp.asarray(L)[jnp.round(x[0]).astype(int)]
            pri = lambda x, data: jnp.asarray(P)[jnp.round(x[0]).astype(int)]
            for training in (False, True):
                if training and nt > 2:
                    continue  # the ladder would move
                strat = ptlib.strategy(n)

                def run(key, w, calls):
                    r = ptlib.resources(kern, ll, pri, w[None], jnp.asarray(ladder), training)
                    pos = w[None, 0]
                    for _ in range(calls):
                        key, r, pos = strat(key, r, pos, {})
                    return jnp.concatenate([pos[0], r["tp"].data[0, :, 0].reshape(-1)]).reshape(-1) if w.shape[1] == 1 else None

                def mat(calls):
                    g = lambda key, w: run(key, w, calls)
                    tp, _ = T.discover(lambda k: g(k, jnp.asarray(states[0], float)[:, None]))
                    draws = [T.quantiles(2) if isinstance(kern, ptlib.Cycle) and direction(tp, g, s, M) else T.quantiles(M) for s in range(tp.S)]
                    size = int(np.prod([len(d) for d in draws]))
                    assert size <= 3_000_000, (name, calls, size)
                    tapes = T.product_grid(draws)
                    fn = jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))
                    W = jnp.asarray(states, float)[:, :, None]
                    o = np.concatenate([np.asarray(fn(tp.keys(c), W)) for c in np.array_split(tapes, max(1, len(tapes) * len(states) // 2_000_000))], 1)
                    ctx.count(states=len(states), transitions=o.shape[0] * o.shape[1] * calls, traces=len(states))
                    return matrix(states, K, nt, o), tp.S, len(tapes)

                def direction(tp, g, s, M):
                    """True if the draw only matters through being below or above one half."""
                    base = np.full((1, tp.S), T.quantiles(M)[0], np.uint32)
                    rows = np.repeat(base, M, 0)
                    rows[:, s] = T.quantiles(M)
                    res = []
                    for b in (T.quantiles(M)[0], T.quantiles(M)[-1]):
                        rr = rows.copy()
                        for q in range(tp.S):
                            if q != s:
                                rr[:, q] = b
                        o = np.asarray(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0))(tp.keys(rr), jnp.asarray(states, float)[:, :, None]))
                        lo, hi = o[:, : M // 2], o[:, M // 2 :]
                        res.append((lo == lo[:, :1]).all() and (hi == hi[:, :1]).all())
                    return all(res)

                k = f"{name}-{'training' if training else 'production'}"
                got = mc.guard(ctx, k + ":exception", mat, 1)
                if got is None:
                    continue
                Pm, S, N = got
                dev = np.abs(pi @ Pm - pi).max()
                ctx.check(dev < 1e-9, f"{k}:invariant", f"ladder {ladder}: one tempering call changes the product of tempered densities by {dev}", transition=Pm, pi=pi)
                two = len(states) <= 8 and (M ** (2 * S) <= 300_000)
                if two:
                    P2, S2, N2 = mat(2)
                    dev = np.abs(P2 - Pm @ Pm).max()
                    ctx.check(dev < 1e-9, f"{k}:markov", f"ladder {ladder}: two successive calls are not two steps of the chain one call makes (largest difference {dev})")
                    ctx.check(np.abs(pi @ P2 - pi).max() < 1e-9, f"{k}:invariant2", f"ladder {ladder}: two successive tempering calls do not leave the product of tempered densities invariant")
                # the chain must be able to move at every level
                ctx.check(all((np.abs(Pm - np.eye(len(Pm))) > 1e-9).any(1)), f"{k}:moves", "some joint state is never left")
        ctx.sample({"last": k, "draws": S, "assignments": N, "joint states": len(states)})
    return part


PARTS = {f"seq{C}x{nt}": (sequences(C, nt), {"x64": True}) for C, nt in ((1, 2), (2, 3), (3, 2))}
PARTS["seq-large"] = (sequences(9, 7, large=True), {"x64": True})
PARTS["law-flip2"] = (law(["flip-12", "flip-24", "flip-11"]), {"x64": True})
PARTS["law-cycle"] = (law(["cycle"]), {"x64": True})
