"""C12: replica exchange preserves the joint tempered distribution and every walker."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import mc
import ptlib
import tape as T

LEVEL = "model_checking"
BOUNDS = ("every assignment of walkers to lattice states, for every ladder of the list (2-4 temperatures), with every assignment of the M quantiles of the "
          "uniform to every swap draw (acceptance ratios are powers of two, so the transition probabilities are exact); full transition matrix of the real "
          "exchange step, checked for stationarity of the product of tempered densities; two chains jointly; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["an identity kernel isolates the exchange step", "draws are uniform on [0,1) with independent keys (C08)"]

LN2 = float(np.log(2.0))
LADDERS = {2: [[1.0, 2.0], [1.0, 4.0], [2.0, 4.0], [1.0, 1.0], [1.0, np.inf]], 3: [[1.0, 2.0, 4.0], [1.0, 1.0, 2.0], [2.0, 4.0, 4.0]], 4: [[1.0, 2.0, 4.0, 4.0], [1.0, 1.0, 2.0, 4.0]]}


def laws(ladder, Ls, M, training, C=1, only=None, n_steps=1):
    """For each configuration of walkers (indices into Ls): outcome counts over all draw assignments."""
    nt = len(ladder)
    tab = jnp.asarray(np.array(Ls))
    pri = jnp.asarray(np.array([0.3, -0.9, 1.4, 0.2])[: len(Ls)])
    ll = lambda x, data: data["tab"][jnp.round(x[0]).astype(int)]
    prior = lambda x, data: data["pri"][jnp.round(x[0]).astype(int)]
    f = ptlib.call(ptlib.Identity(), ll, prior, n_steps, training, {"tab": tab, "pri": pri})
    K = len(Ls)
    confs = np.array(list(itertools.product(range(K), repeat=nt * C))).reshape(-1, C, nt) if only is None else np.array(only).reshape(-1, C, nt)
    # second coordinate: an id that must travel with the walker
    W = np.stack([confs.astype(float), np.broadcast_to(10.0 + np.arange(C * nt).reshape(C, nt), confs.shape)], -1)
    temps = jnp.asarray(ladder)
    g = lambda key, w: f(key, w, temps)[0]
    tp, _ = T.discover(lambda k: g(k, jnp.asarray(W[0])))
    tapes = T.product_grid([T.quantiles(M)] * tp.S)
    fn = jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))
    keys = tp.keys(tapes)
    out = np.asarray(fn(keys, jnp.asarray(W)))  # (conf, tape, C, nt, 2)
    return confs, W, out, tp.S


def check_perm(ctx, key, W, out):
    """each chain's multiset of (state, id) pairs is preserved"""
    a = np.sort(out[..., 1], -1)
    b = np.sort(W[..., 1], -1)[:, None]
    bad = (a != b).any(-1)
    if bad.any():
        i = np.argwhere(bad)[0]
        ctx.violation(key + ":permutation", f"walkers of chain {i[2]} are not a permutation of what they were: {W[i[0]].tolist()} -> {out[i[0], i[1]].tolist()}")
        return False
    nt = W.shape[2]
    order = (out[..., 1] - W[0, :, :1, 1][None, None] ).astype(int)  # index of the walker's old level
    want = np.take_along_axis(np.broadcast_to(W[:, None, :, :, 0], order.shape), order, -1)
    bad = (out[..., 0] != want)
    ctx.check(not bad.any(), key + ":coords", "the coordinates of a walker are torn apart by an exchange")
    return not bad.any()


def stationarity(nt):
    def part(ctx):
        for ladder, training in itertools.product(LADDERS[nt], (True, False)):
            # log-likelihood levels such that every ratio is a power of 1/2
            beta = [1.0 / t for t in ladder]
            db = sorted({round(abs(a - b), 6) for a in beta for b in beta if a != b}) or [1.0]
            unit = LN2 / db[0]
            for levels in ((0, 1), (0, 1, 3)) if nt < 4 else ((0, 1),):
                Ls = [l * unit for l in levels]
                worst = max(Ls) * db[-1] / LN2
                M = int(2 ** np.ceil(worst))
                if M ** (nt - 1) * len(Ls) ** nt > (3e5 if not ctx.thorough else 2e7) or M > 256:
                    continue
                k = f"{nt}-T{ladder}-L{levels}-train{training}"
                r = mc.guard(ctx, k + ":exception", lambda: laws(ladder, Ls, M, training))
                if r is None:
                    continue
                confs, W, out, S = r
                ctx.check(S >= nt - 1, k + ":draws", f"{S} random draws for {nt - 1} adjacent pairs")
                if not check_perm(ctx, k, W, out):
                    continue
                K = len(Ls)
                n = len(confs)
                code = lambda c: (np.round(c).astype(int) * (K ** np.arange(nt)[::-1])).sum(-1)
                P = np.zeros((n, n))
                to = code(out[:, :, 0, :, 0])
                for i in range(n):
                    P[i] = np.bincount(to[i], minlength=n) / out.shape[1]
                pi = np.exp(sum(np.array(Ls)[confs[:, 0, j]] * beta[j] for j in range(nt)))
                pri = np.array([0.3, -0.9, 1.4, 0.2])[:K]
                pi = pi * np.exp(pri[confs[:, 0]].sum(-1))
                pi /= pi.sum()
                err = np.abs(pi @ P - pi) / pi
                if err.max() > 1e-5:
                    i = int(np.argmax(err))
                    ctx.violation(k + ":stationary", f"the product of tempered densities is not invariant: state {confs[i, 0].tolist()} has mass {pi[i]:.6g} before and {(pi @ P)[i]:.6g} after", ladder=ladder, levels=Ls)
                ctx.count(states=n, transitions=out.shape[0] * out.shape[1], traces=n)
        ctx.sample({"temperatures": nt, "last": k, "M": M, "draws": S})
    return part


def isolated(ctx, temps=(2, 3, 4, 5), M=4, exps=(-2, 0, 1, 2), dims=2):
    """Pair j alone can swap; its probability must be exactly min(1, ratio)."""
    for nt in temps:
        ladder = [2.0**i for i in range(nt)] if nt <= 5 else [1.0 + 0.5 * i for i in range(nt)]
        beta = [1 / t for t in ladder]
        W = np.stack([np.arange(nt)] + [10.0 + np.arange(nt)] * (dims - 1), -1)[None].astype(float)
        for training in (True, False):
            cases, Ls = list(itertools.product(range(nt - 1), exps)), []
            for j, e in cases:
                # L_j - L_{j+1} = e*ln2/dbeta  => swap probability min(1, 2^-e); other pairs are blocked
                L = [0.0] * nt
                for i in range(nt - 2, -1, -1):
                    L[i] = L[i + 1] + (e * LN2 / (beta[j] - beta[j + 1]) if i == j else 4000.0)
                Ls.append(L)

            def g(key, L):
                f = ptlib.call(ptlib.Identity(), lambda x, data: data["tab"][jnp.round(x[0]).astype(int)], lambda x, data: 0.0, 1, training, {"tab": L})
                return f(key, jnp.asarray(W), jnp.asarray(ladder))[0][0]

            tp, _ = T.discover(lambda key: g(key, jnp.asarray(Ls[0])))
            keys = tp.keys(T.product_grid([T.quantiles(M)] * tp.S))
            O = np.asarray(jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))(keys, jnp.asarray(np.array(Ls))))
            for (j, e), out in zip(cases, O):
                k = f"pair{j}of{nt}-e{e}-train{training}"
                check_perm(ctx, k, W[None], out[None, :, None])
                ident = np.arange(nt)
                sw = ident.copy()
                sw[[j, j + 1]] = sw[[j + 1, j]]
                isid = (np.round(out[:, :, 0]) == ident).all(1)
                issw = (np.round(out[:, :, 0]) == sw).all(1)
                ctx.check((isid | issw).all(), k + ":other", f"with only pair {j} free to swap, another arrangement occurs: {out[~(isid | issw)][:1, :, 0].tolist()}")
                p = min(1.0, 2.0 ** -e)
                ctx.check(abs(issw.mean() - p) < 1e-9, k + ":prob", f"pair {j} of {nt} temperatures swaps with probability {issw.mean()}, must be {p}")
                ctx.count(states=1, transitions=len(out), traces=1)
            # on both sides of the acceptance threshold, moderate and very unlikely exchanges alike
            for e in (1, 6, 14, 22):
                words = np.round(2.0 ** (32 - e) * np.array([1 - 2.0**-6, 1 + 2.0**-6]))
                words = np.concatenate([words, 2.0**32 - words]).astype(np.uint32)  # u or 1 - u may decide
                tails = [[0.0] * nt for _ in range(nt - 1)]
                for j, L in enumerate(tails):
                    for i in range(nt - 2, -1, -1):
                        L[i] = L[i + 1] + (e * LN2 / (beta[j] - beta[j + 1]) if i == j else 4000.0)
                O = np.asarray(jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))(tp.keys(np.repeat(words[:, None], tp.S, 1)), jnp.asarray(np.array(tails))))
                for j, out in enumerate(O):
                    at = np.round(out[:, :, 0]).astype(int)
                    sw = np.arange(nt)
                    sw[[j, j + 1]] = sw[[j + 1, j]]
                    got = [bool((a == sw).all()) for a in at]
                    mine = [[True, False, False, False], [False, False, True, False]]
                    ok = got in (mine if e > 1 else [[True, False, False, True], [False, True, True, False]])
                    ctx.check(ok, f"pair{j}of{nt}-p2^-{e}-train{training}:threshold", f"pair {j} of {nt} temperatures does not swap exactly for the uniform draws of probability 2^-{e}: for draws just below 2^-{e}, just above it, just above 1 - 2^-{e} and just below it, the exchange happens: {got}")
                    ctx.count(states=1, transitions=2, traces=1)
    ctx.sample({"pairs": "all", "temperatures": temps, "ratio exponents": exps, "draws": tp.S})


def magnitudes(ctx):
    """The rule depends on the difference of the log-likelihoods, not on their size; at equal temperatures every exchange is accepted."""
    M = 16
    for ladder, training in itertools.product(([1.0, 2.0], [1.0, 1.0], [3.0, 3.0], [1.0, 1e6]), (True, False)):
        db = 1 / ladder[0] - 1 / ladder[1]
        W = np.array([[[0.0, 10.0], [1.0, 11.0]]])

        def g(key, L):
            f = ptlib.call(ptlib.Identity(), lambda x, data: data["tab"][jnp.round(x[0]).astype(int)], lambda x, data: 0.0, 1, training, {"tab": L})
            return f(key, jnp.asarray(W), jnp.asarray(ladder))[0][0]

        cases = [(e, off) for e in (-3, 0, 1, 3) for off in (-3e8, -4e5, -1e3, 1e3, 4e5, 3e8)]
        # at equal temperatures the walkers' log-likelihoods may be anything
        Ls = np.array([[off + (e * LN2 / db if db else 50.0 * e), off] for e, off in cases])
        k = f"size-T{ladder}-train{training}"
        r = mc.guard(ctx, k + ":exception", lambda: T.discover(lambda key: g(key, jnp.asarray(Ls[0]))))
        if r is None:
            continue
        tp = r[0]
        O = np.asarray(jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))(tp.keys(T.product_grid([T.quantiles(M)] * tp.S)), jnp.asarray(Ls)))
        for (e, off), out in zip(cases, O):
            if not check_perm(ctx, k, W[None], out[None, :, None]):
                break
            got = (np.round(out[:, 0, 0]) == 1).mean()
            want = min(1.0, 2.0**-e) if db else 1.0
            # 1 / temperature is held in single precision: the ratio inherits its rounding at huge differences only
            ctx.check(abs(got - want) < 1e-9, k + f"-L{off:g}-e{e}:prob", f"walkers with log-likelihoods {Ls[cases.index((e, off))].tolist()} swap between the temperatures {ladder} with probability {got}, must be {want}")
            ctx.count(states=1, transitions=len(out), traces=1)
    ctx.sample({"last": k, "offsets": "up to 3e8", "draws": tp.S})


def large(ctx):
    """Long ladders and high dimensions: the same rule, pair by pair; many chains at once: every one of them exchanges"""
    isolated(ctx, temps=(8, 12) if not ctx.thorough else (6, 7, 8, 9, 10, 12, 16), M=2, exps=(-1, 0, 1), dims=9)
    for nt, C in ((3, 30), (6, 20)):
        ladder = [1.0 + i for i in range(nt)]
        W = np.stack([np.broadcast_to(np.arange(nt), (C, nt)), 10.0 + np.arange(C * nt).reshape(C, nt)], -1).astype(float)
        for up, training in itertools.product((True, False), (True, False)):
            # every exchange is accepted (the likelihood falls steeply towards the hot end reversed) or none is
            f = ptlib.call(ptlib.Identity(), lambda x, data: (1.0 if up else -1.0) * 500.0 * x[0] * nt * nt, lambda x, data: 0.0, 1, training, {})
            out = mc.guard(ctx, f"many-{nt}-{C}-{up}-{training}:exception", lambda: np.asarray(f(jax.random.PRNGKey(2), jnp.asarray(W), jnp.asarray(ladder))[0]))
            if out is None:
                continue
            k = f"many-{nt}-{C}-{'better' if up else 'worse'}-train{training}"
            if check_perm(ctx, k, W[None], out[None, None]):
                moved = (out[..., 0] != W[..., 0]).any(-1)
                ctx.check(moved.all() if up else not moved.any(), k + ":rule", f"{int(moved.sum())} of {C} chains exchange walkers, must be {C if up else 0}: the hotter walkers have the {'higher' if up else 'lower'} likelihood by far")
            ctx.count(states=C, transitions=C * (nt - 1), traces=1)


def two_chains(ctx):
    """Joint law of two chains is the product of the single-chain laws, and no walker changes chain."""
    for ladder, levels, M in (([1.0, 2.0], (0, 1), 2), ([1.0, 2.0], (0, 2), 4), ([1.0, 1.0, 2.0], (0, 1), 2)):
        unit = 2 * LN2
        Ls = [l * unit for l in levels]
        nt, K = len(ladder), len(Ls)
        c1, W1, o1, _ = laws(ladder, Ls, M, False)
        c2, W2, o2, S = laws(ladder, Ls, M, False, C=2)
        k = f"two-{ladder}-{levels}"
        if not check_perm(ctx, k, W2, o2):
            continue
        code = lambda c: (np.round(c).astype(int) * (K ** np.arange(nt)[::-1])).sum(-1)
        n = len(c1)
        P = np.stack([np.bincount(code(o1[i, :, 0, :, 0]), minlength=n) / o1.shape[1] for i in range(n)])
        for i in range(len(c2)):
            a, b = code(c2[i, 0]), code(c2[i, 1])
            J = np.zeros((n, n))
            np.add.at(J, (code(o2[i, :, 0, :, 0]), code(o2[i, :, 1, :, 0])), 1.0 / o2.shape[1])
            if np.abs(J - np.outer(P[a], P[b])).max() > 1e-9:
                ctx.violation(k + ":joint", f"chains do not exchange independently for walkers {c2[i].tolist()}", joint=J, product=np.outer(P[a], P[b]))
                break
        ctx.count(states=len(c2), transitions=o2.shape[0] * o2.shape[1], traces=len(c2))
    ctx.sample({"last": k, "draws": S})


def outside(ctx):
    """Walkers at which the likelihood vanishes: none is lost, duplicated or torn, and the exchange rule holds in the limit."""
    for nt, ladder in ((2, [1.0, 2.0]), (2, [1.0, np.inf]), (3, [1.0, 2.0, 4.0]), (4, [1.0, 1.0, 2.0, 4.0]), (4, [1.0, 2.0, 4.0, np.inf])):
        for lo, training in itertools.product((-np.inf, -1e300), (True, False)):
            Ls = [0.0, 3.0, lo]
            k = f"out-T{ladder}-{lo}-train{training}"
            r = mc.guard(ctx, k + ":exception", lambda: laws(ladder, Ls, 4, training))
            if r is None:
                continue
            confs, W, out, S = r
            check_perm(ctx, k, W, out)
            # exchange rule pair by pair: the law of the arrangement is that of exchanging every adjacent pair once, in some fixed order
            # (two walkers of zero likelihood may be exchanged or not)
            us = (np.arange(4) + 0.5) / 4
            beta = 1.0 / np.asarray(ladder)

            def reference(c, order, both):
                dist = {tuple(range(nt)): 1.0}
                for j in order:
                    new = {}
                    for a, w in dist.items():
                        x, y = Ls[c[a[j]]], Ls[c[a[j + 1]]]
                        if not np.isfinite(x) and not np.isfinite(y):
                            p = both
                        else:
                            p = float((np.log(us) < (beta[j + 1] - beta[j]) * (x - y)).mean()) if beta[j] != beta[j + 1] else 1.0
                        b = list(a)
                        b[j], b[j + 1] = b[j + 1], b[j]
                        for t, q in ((a, 1 - p), (tuple(b), p)):
                            if q:
                                new[t] = new.get(t, 0.0) + w * q
                    dist = new
                return dist

            ids = np.round(out[:, :, 0, :, 1] - 10).astype(int)
            orders = list(itertools.permutations(range(nt - 1)))
            for i in range(len(confs)):
                c = confs[i, 0]
                if not (c == 2).any() or len(set(ladder)) < nt:
                    continue
                rows, n = np.unique(ids[i], axis=0, return_counts=True)
                got = {tuple(r): m / len(ids[i]) for r, m in zip(rows, n)}
                match = lambda d: all(abs(d.get(a, 0.0) - got.get(a, 0.0)) < 1e-9 for a in set(d) | set(got))
                orders = [(o) for o in orders if any(match(reference(c, o, b)) for b in (0.0, 1.0))]
                if not ctx.check(bool(orders), k + ":rule", f"from walkers {[Ls[x] for x in c]} the arrangements occur with frequencies {got}: not an exchange of adjacent pairs by the exchange rule"):
                    break
            # a walker of zero density never displaces one of positive density from a strictly colder level
            # (tested on the coldest level, for configurations in which every other walker is inside)
            for i in range(len(confs)):
                c = confs[i, 0]
                if c[0] != 2 and (c[1:] == 2).all() and ladder[1] > ladder[0]:
                    ctx.check((np.round(out[i, :, 0, 0, 0]) == c[0]).all(), k + ":displaced", f"from {c.tolist()}: a walker of zero likelihood takes the coldest level from a walker inside the support")
            ctx.count(states=len(confs), transitions=out.shape[0] * out.shape[1], traces=len(confs))
    ctx.sample({"last": k, "draws": S})


PARTS = {
    "outside": (outside, {"x64": True}),
    "stationary2": (stationarity(2), {"x64": True}),
    "stationary3": (stationarity(3), {"x64": True}),
    "stationary4": (stationarity(4), {"x64": True}),
    "isolated": (isolated, {"x64": True}),
    "large": (large, {"x64": True}),
    "magnitudes": (magnitudes, {"x64": True}),
    "two_chains": (two_chains, {"x64": True}),
}
