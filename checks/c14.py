"""C14: temperature adaptation keeps a valid ladder and stops in production."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import mc
import ptlib
import tape as T

LEVEL = "model_checking"
BOUNDS = ("breadth-first over ladders: from every start ladder, every pattern of accepted swaps (all adjacent pairs of 1-3 chains, 2-5 temperatures) is produced "
          "by the real exchange step under controlled draws and adapted by the real strategy, to the stated depth; every reached ladder is checked; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["ladders are sorted up to the rounding of single precision (1e-6 relative)", "at equal ladders the exchange outcome depends only on the swap draws (checked: every pattern is produced)"]

STARTS = {
    2: [[1.0, 5.0]],
    3: [[1.0, 2.0, 3.0], [1.0, 1.0, 4.0], [1.0, 30.0, 1000.0], [0.5, 0.75, 0.8], [1.0, 4.0, 4.0]],
    4: [[1.0, 2.0, 3.0, 4.0], [1.0, 1.01, 50.0, 50.5], [1.0, 10.0, 100.0, 1000.0]],
    5: [[1.0, 2.0, 3.0, 4.0, 5.0], [1.0, 1.0, 1.0, 1.0, 8.0]],
}


def make(C, nt, training):
    # log-likelihood falls slowly with the level: a swap is certain for u=0 and refused for the largest u
    W = np.zeros((C, nt, 1), np.float32)
    W[:, :, 0] = np.arange(nt)
    ll = lambda x, data: -x[0] * 1e4
    f = ptlib.call(ptlib.Identity(), ll, lambda x, data: 0.0, 1, training, {})

    def g(key, temps):
        w, t, _ = f(key, jnp.asarray(W), temps)
        return t, w[:, :, 0]

    return g


def accepted(order, nt):
    """which adjacent pairs swapped, from the final arrangement of a sequential sweep"""
    return order


def explore(nt, C):
    def part(ctx):
        depth = {(3, 1): 6, (3, 2): 4, (3, 3): 3, (4, 1): 4, (4, 2): 2, (5, 1): 3, (2, 2): 2}.get((nt, C), 2) + (1 if ctx.thorough else 0)
        g = make(C, nt, True)
        tp, _ = T.discover(lambda k: g(k, jnp.asarray(STARTS[nt][0])))
        h = make(C, nt, False)
        # controlled draws: 0 accepts, largest below 1 refuses (ratio is very negative unless the ladder gap is closed)
        tapes = T.product_grid([[T.BITS0, T.BITSMAX]] * tp.S)
        fn = jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))
        fh, fh0, fhn = [jax.jit(jax.vmap(jax.vmap(q, in_axes=(0, None)), in_axes=(None, 0))) for q in (h, make(C, nt, 0), make(C, nt, np.bool_(False)))]
        keys = tp.keys(tapes)
        patterns = set()
        seen = set()
        for st in STARTS[nt]:
            frontier = np.array([st], np.float32)
            for level in range(depth):
                if len(frontier) > 4000:
                    frontier = frontier[:: len(frontier) // 4000 + 1]
                    ctx.notes.append(f"nt={nt} C={C} level {level}: frontier thinned to {len(frontier)} ladders")
                new, order = [np.asarray(a) for a in fn(keys, jnp.asarray(frontier))]
                for i, old in enumerate(frontier):
                    check(ctx, f"nt{nt}-C{C}", nt, C, old, new[i], order[i], patterns)
                # the flag may be any false value
                fz = np.asarray((fh, fh0, fhn)[level % 3](keys, jnp.asarray(frontier))[0])
                ctx.check((fz == frontier[:, None]).all(), f"nt{nt}-C{C}:frozen", "the ladder changes outside the training phase", before=frontier[0], after=fz[0])
                ctx.count(transitions=2 * new.shape[0] * new.shape[1])
                nxt = []
                for t in np.unique(new.reshape(-1, nt), axis=0):
                    b = t.tobytes()
                    if b not in seen and np.isfinite(t).all():
                        seen.add(b)
                        nxt.append(t)
                if not nxt:
                    break
                frontier = np.array(nxt)
        ctx.count(states=len(seen), traces=len(seen))
        ctx.bump("patterns", len(patterns))
        ctx.reach(len(patterns) == 2 ** (C * (nt - 1)), "every acceptance pattern")
        ctx.sample({"temperatures": nt, "chains": C, "depth": depth, "ladders": len(seen), "patterns": len(patterns)})
    return part


def decode(order, nt):
    """Sequential sweep (0,1),(1,2),...: recover which swaps happened from the final order of level tags."""
    acc = []
    cur = list(range(nt))
    for j in range(nt - 1):
        # if pair j was swapped, position j ends up holding what was at j+1
        if round(float(order[j])) == cur[j + 1]:
            acc.append(1)
            cur[j], cur[j + 1] = cur[j + 1], cur[j]
        else:
            acc.append(0)
    return acc, cur


def check(ctx, k, nt, C, old, new, order, patterns):
    for t, o in zip(new, order):
        accs = []
        okdec = True
        for c in range(C):
            a, cur = decode(o[c], nt)
            okdec &= cur == [int(round(float(v))) for v in o[c]]
            accs.append(a)
        if okdec:
            patterns.add(tuple(map(tuple, accs)))
        kk = f"{k}"
        d = dict(ladder=old, adapted=t, accepted=accs)
        ctx.check(np.isfinite(t).all(), kk + ":finite", f"ladder {old.tolist()} becomes {t.tolist()} when swaps {accs} are accepted", **d)
        ctx.check(t[0] == old[0] and t[-1] == old[-1], kk + ":ends", f"ladder {old.tolist()} becomes {t.tolist()}: an end moved (swaps {accs})", **d)
        ctx.check((np.diff(t) >= -1e-6 * np.abs(old).max()).all(), kk + ":sorted", f"ladder {old.tolist()} becomes {t.tolist()}: not sorted (swaps {accs})", **d)
        if not okdec:
            continue
        rate = np.mean(accs, 0)
        tol = 1e-5 * (1 + np.abs(old).max())
        for i in range(1, nt - 1):
            g0, g1 = old[i] - old[i - 1], t[i] - t[i - 1]
            capped = t[i] >= old[-1] * (1 - 1e-6)
            if rate[i - 1] == rate[i]:
                ctx.check(abs(g1 - g0) <= tol or capped, kk + ":equal", f"gap {i - 1} of {old.tolist()} becomes {g1} although its swaps were accepted as often as the next gap's (swaps {accs})", **d)
            elif rate[i - 1] > rate[i]:
                ctx.check(capped or (g1 > g0 - tol and (g1 > g0 or g0 <= tol)), kk + ":grow", f"gap {i - 1} of {old.tolist()} becomes {g1} although its swaps were accepted more often (swaps {accs})", **d)
            else:
                ctx.check(capped or (g1 < g0 + tol and (g1 < g0 or g0 <= tol)), kk + ":shrink", f"gap {i - 1} of {old.tolist()} becomes {g1} although its swaps were accepted less often (swaps {accs})", **d)
        if len(set(rate.tolist())) == 1:
            ctx.check(np.allclose(t, old, atol=tol), kk + ":fixed", f"ladder {old.tolist()} becomes {t.tolist()} although all pairs were accepted equally often (swaps {accs})", **d)


def large(ctx):
    """Long ladders (every acceptance pattern of one chain) and many chains (a family of patterns), one or two adaptations deep"""
    for nt, C, depth in ((8, 1, 2), (11, 1, 1), (3, 40, 2), (5, 24, 2), (9, 17, 1)):
        starts = [[1.0 + i for i in range(nt)], [1.0 * 1.6**i for i in range(nt)]]
        g, h = make(C, nt, True), make(C, nt, False)
        tp, _ = T.discover(lambda k: g(k, jnp.asarray(starts[0])))
        if tp.S <= 11:
            tapes = T.product_grid([[T.BITS0, T.BITSMAX]] * tp.S)
        else:
            # word s refuses iff (s*p + q) mod m < r
            s = np.arange(tp.S)
            fam = [((s * p_ + q) % m) < r for m in (1, 2, 3, nt - 1, 7, C, tp.S) for p_ in (1, 2) for q in (0, 1) for r in range(0, m + 1, max(1, m // 4))]
            tapes = np.unique(np.where(np.array(fam), T.BITSMAX, T.BITS0).astype(np.uint32), axis=0)
        keys = tp.keys(tapes)
        fn = jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))
        fh = jax.jit(jax.vmap(jax.vmap(h, in_axes=(0, None)), in_axes=(None, 0)))
        frontier, patterns = np.array(starts, np.float32), set()
        k = f"nt{nt}-C{C}"
        for level in range(depth):
            new, order = [np.asarray(a) for a in fn(keys, jnp.asarray(frontier))]
            for i, old in enumerate(frontier):
                check(ctx, k, nt, C, old, new[i], order[i], patterns)
            fz = np.asarray(fh(keys, jnp.asarray(frontier))[0])
            ctx.check((fz == frontier[:, None]).all(), k + ":frozen", "the ladder changes outside the training phase", before=frontier[0], after=fz[0])
            ctx.count(states=len(frontier), transitions=2 * new.shape[0] * new.shape[1], traces=len(frontier))
            nxt = np.unique(new.reshape(-1, nt), axis=0)
            frontier = nxt[np.isfinite(nxt).all(1)][:: max(1, len(nxt) // 12)]
        ctx.reach(len(patterns) > 1, "more than one acceptance pattern")
        ctx.bump("patterns", len(patterns))
    ctx.sample({"last": k, "patterns": len(patterns), "draws": tp.S})


PARTS = {f"T{nt}_C{C}": (explore(nt, C), {}) for nt, C in ((2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1))}
PARTS["large"] = (large, {})
