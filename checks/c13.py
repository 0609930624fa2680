"""C13: each temperature samples its own tempered density."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import mc
import ptlib
import tape as T

LEVEL = "model_checking"
BOUNDS = ("all (temperatures 2-4 ladders, chains 1-3, kernel steps 1-4, training flag) with a probing kernel that writes every argument it receives into "
          "the walker; exact law of the walkers for all acceptance and proposal draws with a lattice Metropolis kernel at every temperature; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["64-bit floats in the harness"]


BAD = 55.0  # the likelihood (in data["bad"] = 1) or the prior (2) vanishes there


class Probe(ptlib.Plain):
    """coords: 0 tag, 1 step count, 2 first log_prob received, 3 last log_prob received,
    4 density at the probe point, 5 density at own position, 6 data seen"""

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        probe = jnp.zeros_like(position).at[0].set(7.0)
        n = position[1]
        new = position
        new = new.at[1].set(n + 1)
        new = new.at[2].set(jnp.where(n == 0, log_prob, position[2]))
        new = new.at[3].set(log_prob)
        new = new.at[4].set(logpdf(probe, data))
        new = new.at[5].set(logpdf(position, data))
        new = new.at[6].set(data["a"])
        return new, 1000.0 + n, jnp.ones((), int)


def lik(x, data):
    # depends only on the tag, falls so steeply with it that no swap happens
    v = -200.0 * x[0] * data["a"] - 0.25 * data["a"]
    return jnp.where((x[0] == BAD) & (data["bad"] == 1), -jnp.inf, v)


def pri(x, data):
    v = -0.013 * x[0] ** 2 * data["a"] - 0.125 * x[0]
    return jnp.where((x[0] == BAD) & (data["bad"] == 2), -jnp.inf, v)


def probing(nt, large=False):
    def part(ctx):
        ladders = [[1.0 + 0.75 * i for i in range(nt)]] if large else {2: [[1.0, 2.0], [2.0, 10.0], [0.5, 1.0], [1.0, 5e3]], 3: [[1.0, 3.0, 9.0], [1.5, 2.0, 40.0], [1.0, 300.0, 1e7]], 4: [[1.0, 2.0, 4.0, 8.0]]}[nt]
        for ladder, C, n, training, bad in itertools.product(ladders, (1, 2, 3) if not large else (5, 24), (20, 70) if large else (1, 2, 4) if not ctx.thorough else (1, 2, 3, 4, 6), (True, False), (0, 1, 2)):
            if large and C * n > 400:
                continue
            if not large and not ctx.thorough and (C == 3 and n != 2 or bad and (C != 2 or n == 4)):
                continue
            data = {"a": 1.5, "bad": bad}
            W = np.zeros((C, nt, 7))
            W[:, :, 0] = np.arange(nt)[None] + (10.0 if not large else 100.0) * np.arange(C)[:, None]  # own tag per walker
            if bad:
                W[C - 1, (n + bad) % nt, 0] = BAD
            k = f"T{ladder}-C{C}-n{n}-train{training}" + ("", "-outside-likelihood", "-outside-prior")[bad]
            f = ptlib.call(Probe(), lik, pri, n, training, data)
            out = mc.guard(ctx, k + ":exception", lambda: f(jax.random.PRNGKey(0), jnp.asarray(W), jnp.asarray(ladder)))
            if out is None:
                continue
            o = np.asarray(out[0])
            tags = o[:, :, 0]
            for c, j in itertools.product(range(C), range(nt)):
                w = o[c][tags[c] == W[c, j, 0]]
                if not ctx.check(len(w) == 1, f"{k}:lost", f"walker {j} of chain {c} occurs {len(w)} times"):
                    continue
                w = w[0]
                Tj = ladder[j]
                x = W[c, j, 0]
                dens = lambda t: float(lik(np.array([t]), data)) / Tj + float(pri(np.array([t]), data))
                close = lambda a, b: a == b or np.isfinite(b) and abs(a - b) <= 1e-5 * (1 + abs(b))
                ctx.check(w[1] == n, f"{k}:steps", f"walker at temperature {Tj} takes {w[1]} steps, must take {n}")
                ctx.check(close(w[2], dens(x)), f"{k}:start", f"walker at temperature {Tj} starts with log-density {w[2]}, must be {dens(x)}")
                ctx.check(n == 1 or w[3] == 1000.0 + n - 2, f"{k}:carry", f"step {n - 1} receives log-density {w[3]}, the previous step returned {1000.0 + n - 2}")
                ctx.check(close(w[4], dens(7.0)), f"{k}:density", f"walker at temperature {Tj} is moved on a density worth {w[4]} at the probe point, must be {dens(7.0)}")
                ctx.check(close(w[5], dens(x)), f"{k}:own", f"walker at temperature {Tj} evaluates {w[5]} at its own position, must be {dens(x)}")
                ctx.check(w[6] == data["a"], f"{k}:data", "the kernel does not receive the caller's data")
            ctx.count(states=C * nt, transitions=C * nt * n, traces=1)
        ctx.sample({"ladders": ladders, "last": k})
    return part


LN2 = float(np.log(2.0))


def law(ctx):
    """Exact law of a walker after n lattice Metropolis steps at its temperature."""
    for ladder, unit, n in (([1.0, 2.0], 2.0, 1), ([1.0, 2.0], 2.0, 2), ([2.0, 4.0], 4.0, 1), ([1.0, 4.0], 4.0, 1)) + ((([1.0, 2.0, 4.0], 4.0, 1),)):
        nt = len(ladder)
        tab = np.array([0.0, unit * LN2])
        pr = np.array([0.0, -LN2 * 1.0])  # prior in whole powers of two, never tempered
        big = 1e4
        # coordinate 1 is a level tag whose steep likelihood blocks every swap
        ll = lambda x, data: jnp.asarray(tab)[jnp.round(x[0]).astype(int)] - big * x[1]
        prior = lambda x, data: jnp.asarray(pr)[jnp.round(x[0]).astype(int)]
        M = 16 if n == 1 and nt == 2 else 8 if n == 1 else 4
        for training in (True, False):
            f = ptlib.call(ptlib.Flip(), ll, prior, n, training, {})
            k = f"law-{ladder}-n{n}-{training}"
            worst = max(abs(tab[1] / t + pr[1]) for t in ladder) / LN2
            if 2 ** worst > M:
                continue
            confs = np.array(list(itertools.product((0, 1), repeat=nt)))
            W = np.stack([confs, np.broadcast_to(np.arange(nt), confs.shape)], -1)[:, None].astype(float)
            g = lambda key, w: f(key, w, jnp.asarray(ladder))[0][0, :, 0]
            tp, _ = T.discover(lambda key: g(key, jnp.asarray(W[0])))
            if M ** tp.S > (300000 if not ctx.thorough else 4000000):
                M = 4
            tapes = T.product_grid([T.quantiles(M)] * tp.S)
            out = np.asarray(jax.jit(jax.vmap(jax.vmap(g, in_axes=(0, None)), in_axes=(None, 0)))(tp.keys(tapes), jnp.asarray(W)))
            for i, c in enumerate(confs):
                for j, t in enumerate(ladder):
                    up = tab[1] / t + pr[1]  # log ratio 1 vs 0
                    K = np.array([[1 - min(1, np.exp(up)), min(1, np.exp(up))], [min(1, np.exp(-up)), 1 - min(1, np.exp(-up))]])
                    want = np.linalg.matrix_power(K, n)[c[j], 1]
                    got = out[i, :, j].mean()
                    ctx.check(abs(want - got) < 1e-9, k + f":T{t}-from{c[j]}", f"after {n} steps at temperature {t} from state {c[j]} the walker is in state 1 with probability {got}, must be {want}")
            ctx.count(states=len(confs), transitions=len(tapes) * len(confs) * nt * n, traces=len(confs))
    ctx.sample({"last": k, "draws": tp.S, "assignments": len(tapes)})


PARTS = {f"probe{n}": (probing(n), {"x64": True}) for n in (2, 3, 4)}
PARTS["probe9"] = (probing(9, large=True), {"x64": True})
PARTS["law"] = (law, {"x64": True})
