"""C09: the flow-enhanced bundle keeps training and production separate and complete."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import bundles as B
import mc
from flowMC.resource.buffers import Buffer
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.Sampler import Sampler

LEVEL = "model_checking"
BOUNDS = ("all bundle configurations of the stated grid (local/global steps 1-3, thinnings 1-3, training loops 0-3, production loops 0-2, epochs 1-2, chains 1-2, "
          "chain batches, example counts) run through Sampler with counting components in place of MALA and the spline flow; every resource is compared "
          "with a reference model and monitored after every strategy; plus full runs with the real components")
ASSUMPTIONS = ["chain continues from its last recorded state (C06)", "jit disabled for the spy runs (same code, interpreted by jax); the real-component runs use jit"]


def configs(thorough):
    out = []
    for nl, ng, tl, tg in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), (1, 2)):
        out.append(dict(C=2, nl=nl, ng=ng, tl=tl, tg=tg, T=2, P=2, E=1))
    for T, P, E in itertools.product((0, 1, 2, 3), (0, 1, 2), (1, 2)):
        out.append(dict(C=2, nl=3, ng=2, tl=2, tg=1, T=T, P=P, E=E))
    for C, b, (nmax, bs) in itertools.product((1, 2, 3), (0, 2), ((300, 100), (200, 300), (250, 100))):
        out.append(dict(C=C, b=b, nl=2, ng=3, tl=1, tg=3, T=2, P=1, E=2, nmax=nmax, bs=bs))
    # longer runs: nothing may change with the number of loops, steps, chains or epochs
    for T, P in ((1, 4), (4, 1), (3, 3), (5, 5), (1, 17), (17, 1)):
        out.append(dict(C=2, nl=1, ng=2, tl=1, tg=1, T=T, P=P, E=2, nmax=3000, bs=1000))
    for nl, ng, tl, tg in ((9, 2, 4, 1), (2, 9, 1, 4), (6, 7, 7, 3), (5, 5, 5, 5)):
        out.append(dict(C=2, nl=nl, ng=ng, tl=tl, tg=tg, T=2, P=2, E=1))
    out.append(dict(C=6, b=4, nl=2, ng=2, tl=1, tg=2, T=2, P=3, E=1))
    out.append(dict(C=2, nl=2, ng=1, tl=1, tg=1, T=2, P=1, E=11))
    out.append(dict(C=1, nl=70, ng=90, tl=3, tg=11, T=1, P=2, E=1, span=900))
    out.append(dict(C=21, nl=1, ng=2, tl=1, tg=1, T=1, P=1, E=1, nmax=2700, bs=900, span=20))
    if thorough:
        for nl, ng, tl, tg, T, P, E in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (1, 2, 3), (1, 2, 3), (1, 3), (1, 2), (1, 2)):
            out.append(dict(C=2, nl=nl, ng=ng, tl=tl, tg=tg, T=T, P=P, E=E))
    return out


N = 6


def spy(i):
    def part(ctx):
        jax.config.update("jax_disable_jit", True)
        mine = configs(ctx.thorough)[i::N]
        for cfg in mine:
            k = "-".join(f"{a}{v}" for a, v in cfg.items())
            r = mc.guard(ctx, k + ":exception", lambda: B.run(RQSpline_MALA_Bundle, cfg))
            if r is None:
                continue
            log, x0, s = r
            B.verify(ctx, k, cfg, log, x0, s, B.reference(cfg, x0))
        ctx.sample({"configurations": len(mine), "last": mine[-1], "strategies": [l[0] for l in log][:12]})
    return part


def real(ctx):
    """Real MALA, spline flow, optimizer; invariants only."""
    lp = lambda x, data: -0.5 * jnp.sum((x - data["m"]) ** 2)
    for cfg in (dict(nl=3, ng=4, tl=1, tg=2, T=2, P=2, E=2), dict(nl=2, ng=3, tl=2, tg=1, T=1, P=1, E=3)):
        k = "real-" + "-".join(f"{a}{v}" for a, v in cfg.items())
        b = RQSpline_MALA_Bundle(jax.random.PRNGKey(ctx.seed), 3, 2, lp, cfg["nl"], cfg["ng"], cfg["T"], cfg["P"], cfg["E"], mala_step_size=0.6, rq_spline_hidden_units=[4],
                                 rq_spline_n_bins=3, rq_spline_n_layers=2, local_thinning=cfg["tl"], global_thinning=cfg["tg"], batch_size=20, n_max_examples=40, learning_rate=1e-2)
        log = []
        from flowMC.strategy.base import Strategy

        def leaves(x):
            return [np.array(l) for l in jax.tree_util.tree_leaves(x) if hasattr(l, "shape")]

        def snap(r):
            s = {n: np.array(v.data) for n, v in r.items() if isinstance(v, Buffer)}
            for n in ("model", "global_sampler"):
                s[n] = leaves(r[n])
            s["optimizer"] = leaves(r["optimizer"].optim_state)
            return s

        class M(Strategy):
            def __init__(self, inner, name):
                self.inner, self.name = inner, name

            def __call__(self, key, res, pos, data):
                key, res, pos = self.inner(key, res, pos, data)
                log.append((self.name, snap(res)))
                return key, res, pos

        init = snap(b.resources)
        s = Sampler(2, 3, jax.random.PRNGKey(ctx.seed + 7), resources=b.resources, strategies={n: M(v, n) for n, v in b.strategies.items()}, strategy_order=b.strategy_order)
        s.sample(jnp.asarray(np.random.RandomState(0).randn(3, 2).astype(np.float32)), {"m": 0.3})
        fin = log[-1][1]
        for n in ("positions_training", "log_prob_training", "positions_production", "log_prob_production", "loss_buffer"):
            ctx.check(np.isfinite(fin[n]).all(), f"{k}:{n}", f"{n} is not completely filled", got=fin[n])
        tv = jax.vmap(jax.vmap(lambda x: lp(x, {"m": 0.3})))
        for ph in ("training", "production"):
            ctx.check(np.allclose(fin["log_prob_" + ph], tv(fin["positions_" + ph]), atol=1e-4), f"{k}:aligned-{ph}", "log-probabilities are not those of the recorded positions")
            la, ga = np.isfinite(fin["local_accs_" + ph]), np.isfinite(fin["global_accs_" + ph])
            ctx.check((la ^ ga).all(), f"{k}:accs-{ph}", "an entry has both or neither of a local and a global acceptance")
        same = lambda a, b: all(np.array_equal(x, y) for x, y in zip(a, b)) if isinstance(a, list) else np.array_equal(a, b)
        trained = 0
        for (n1, a), (n2, c) in zip([("init", init)] + log[:-1], log):
            if not same(a["model"], c["model"]):
                trained += 1
            if np.isfinite(c["positions_production"]).any():
                for n in ("positions_training", "log_prob_training", "local_accs_training", "global_accs_training", "loss_buffer", "model", "global_sampler", "optimizer"):
                    ctx.check(same(a[n], c[n]), f"{k}:production:{n}", f"{n2} changes {n} during production")
        ctx.check(trained == cfg["T"], f"{k}:trained", f"the flow was trained {trained} times in {cfg['T']} training loops")
        m, g = fin["model"], fin["global_sampler"]
        ctx.check(len(m) == len(g) and same(m, g), f"{k}:synced", "proposals do not use the latest flow")
        ctx.count(states=len(log), transitions=len(log), traces=1)


PARTS = {f"spy{i}": (spy(i), {}) for i in range(N)}
PARTS["real"] = (real, {})
