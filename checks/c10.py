"""C10: the parallel-tempering bundle keeps its phases separate and complete."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import bundles as B
import mc
from flowMC.resource.buffers import Buffer
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
from flowMC.Sampler import Sampler
from flowMC.strategy.base import Strategy

LEVEL = "model_checking"
BOUNDS = ("all bundle configurations of the stated grid (steps, thinnings, loops, epochs, chains, 2-4 temperatures, tempered steps 1-3 and default) run through "
          "Sampler with counting components; every resource is compared with a reference model including the tempered walkers and monitored after every "
          "strategy; densities seen by each stage compared at a probe point; plus full runs with the real components")
ASSUMPTIONS = ["equal log-likelihoods swap with certainty, so the reference walker permutation is deterministic", "jit disabled for the spy runs"]


def configs(thorough):
    out = []
    base = dict(C=2, nl=2, ng=2, tl=1, tg=1, T=2, P=2, E=1, nt=3, ns=2, hw=100)
    for nl, ng, tl, tg in ((1, 1, 1, 1), (3, 2, 2, 1), (2, 3, 1, 2), (3, 3, 2, 2), (1, 3, 1, 3), (3, 1, 3, 1)):
        out.append({**base, "nl": nl, "ng": ng, "tl": tl, "tg": tg})
    for T, P in itertools.product((0, 1, 3), (0, 1, 3)):
        out.append({**base, "T": T, "P": P, "E": 2})
    for nt, ns in itertools.product((2, 4), (-1, 1, 3)):
        out.append({**base, "nt": nt, "ns": ns})
    for C, b, hw in itertools.product((1, 3), (0, 2), (3, 100)):
        out.append({**base, "C": C, "b": b, "hw": hw, "P": 1})
    for kw in (dict(T=2, P=4), dict(T=4, P=2), dict(nt=6, ns=5), dict(C=5, b=3, P=3), dict(nl=6, ng=7, tl=5, tg=3), dict(T=1, P=5, nt=2, ns=1, nl=1, ng=1),
               dict(T=1, P=17, nt=2, ns=1, nl=1, ng=1), dict(T=17, P=1, nt=2, ns=1, nl=1, ng=1, nmax=3000, bs=1000), dict(nt=11, T=1, P=1), dict(ns=45, P=1), dict(C=21, T=1, P=1, nmax=2700, bs=900, span=40), dict(C=1, nl=70, ng=90, tl=3, tg=11, T=1, P=2, span=900)):
        out.append({**base, **kw})
    if thorough:
        for nl, ng, tl, tg, T, P, nt, ns in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), (1, 2), (0, 1, 2), (1, 2), (2, 3, 4), (-1, 1)):
            out.append({**base, "nl": nl, "ng": ng, "tl": tl, "tg": tg, "T": T, "P": P, "nt": nt, "ns": ns})
    return out


N = 6


def spy(i):
    def part(ctx):
        jax.config.update("jax_disable_jit", True)
        mine = configs(ctx.thorough)[i::N]
        for cfg in mine:
            k = "-".join(f"{a}{v}" for a, v in cfg.items())
            r = mc.guard(ctx, k + ":exception", lambda: B.run(RQSpline_MALA_PT_Bundle, cfg, n_temperatures=cfg["nt"], max_temperature=7.0, n_tempered_steps=cfg["ns"], history_window=cfg["hw"]))
            if r is None:
                continue
            log, x0, s = r
            ns = cfg["ns"] if cfg["ns"] > 0 else cfg["nl"]
            ref = B.reference(cfg, x0, pt=(cfg["nt"] - 1, ns))
            B.verify(ctx, k, cfg, log, x0, s, ref, window=cfg["hw"])
            fin = log[-1][1]
            if cfg["nt"] > 1:
                g = fin["tempered_positions"]
                started = bool(cfg["T"] + cfg["P"])
                ctx.check(np.allclose(g[:, :, 0], ref["hot"]), k + ":tempered", f"tempered walkers end at {g[:, :, 0].tolist()}, must be {np.asarray(ref['hot']).tolist()}", cfg=cfg)
                ctx.check(np.allclose(np.delete(g, [0, 1], -1), 0), k + ":tempered-rest", "other coordinates of tempered walkers changed")
            t = fin["temperatures"]
            ctx.check(np.allclose(t, np.linspace(1.0, 7.0, cfg["nt"])), k + ":ladder", f"equal swap rates must leave the ladder linear from 1 to 7, it is {t.tolist()}", cfg=cfg)
        ctx.sample({"configurations": len(mine), "last": mine[-1]})
    return part


def densities(ctx):
    """Local, global and coldest tempered stage must evaluate the same density (probe written into x2)."""
    jax.config.update("jax_disable_jit", True)
    f = lambda x, data: -0.3 * jnp.sum(x) * data["a"] + 0.0 * x[0]
    for prior in ("none", "flat", "gauss"):
        kw = {}
        if prior == "flat":
            kw["logprior"] = lambda x, data: 0.0
        if prior == "gauss":
            kw["logprior"] = lambda x, data: -0.7 * jnp.sum(x**2)
        cfg = dict(C=2, nl=1, ng=1, tl=1, tg=1, T=1, P=1, E=1)
        seen = {}
        log, x0, s = B.run(RQSpline_MALA_PT_Bundle, cfg, n_dims=3, logpdf=f, n_temperatures=2, max_temperature=4.0, n_tempered_steps=1, **kw)
        for nm, sn, pos in log[1:]:
            if nm == "parallel_tempering":
                # walker that was at T=1 during the steps: cold or swapped up
                vals = set(np.round(np.concatenate([pos[:, 2], sn["tempered_positions"][:, :, 2].reshape(-1)]), 5).tolist())
                seen.setdefault("tempered", set()).update(vals)
            if nm == "local_stepper":
                seen.setdefault("local", set()).update(np.round(pos[:, 2], 5).tolist())
            if nm == "global_stepper":
                seen.setdefault("global", set()).update(np.round(pos[:, 2], 5).tolist())
        x = np.full(3, 0.5)
        L = -0.3 * x.sum() * 0.5
        pr = -0.7 * (x**2).sum() if prior == "gauss" else 0.0
        near = lambda s, v: any(abs(a - v) < 1e-4 for a in s)
        if "tempered" in seen:
            ctx.check(near(seen["tempered"], L + pr) and near(seen["tempered"], L / 4.0 + pr), f"{prior}:tempered", f"tempered stage evaluates {sorted(seen['tempered'])}, must be {L + pr} and {L / 4 + pr}")
        for st in ("local", "global"):
            if st in seen:
                ctx.check(len(seen[st]) == 1 and near(seen[st], L + pr), f"{prior}:{st}-target", f"the {st} stage samples log-density {sorted(seen[st])} at the probe point while the coldest tempered walker samples {L + pr}")
        ctx.count(states=len(log), transitions=len(log) - 1, traces=1)
    ctx.sample({k: sorted(v) for k, v in seen.items()})


def real(ctx):
    """Real components: the ladder adapts in training, is frozen in production, walkers keep evolving."""
    lp = lambda x, data: jnp.logaddexp(-2.0 * jnp.sum((x - data["m"]) ** 2), -2.0 * jnp.sum((x + data["m"]) ** 2))
    for cfg in (dict(nl=2, ng=3, tl=1, tg=2, T=2, P=3, nt=4), dict(nl=3, ng=2, tl=2, tg=1, T=2, P=2, nt=3)):
        k = "real-" + "-".join(f"{a}{v}" for a, v in cfg.items())
        b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(ctx.seed), 4, 2, lp, cfg["nl"], cfg["ng"], cfg["T"], cfg["P"], 2, mala_step_size=0.5, rq_spline_hidden_units=[4], rq_spline_n_bins=3,
                                    rq_spline_n_layers=2, local_thinning=cfg["tl"], global_thinning=cfg["tg"], batch_size=20, n_max_examples=40, n_temperatures=cfg["nt"], max_temperature=8.0, n_tempered_steps=3)
        log = []

        def leaves(x):
            return [np.array(l) for l in jax.tree_util.tree_leaves(x) if hasattr(l, "shape")]

        def snap(r):
            s = {n: np.array(v.data) for n, v in r.items() if isinstance(v, Buffer)}
            for n in ("model", "global_sampler"):
                s[n] = leaves(r[n])
            s["optimizer"] = leaves(r["optimizer"].optim_state)
            return s

        class M(Strategy):
            def __init__(self, inner, name):
                self.inner, self.name = inner, name

            def __call__(self, key, res, pos, data):
                key, res, pos = self.inner(key, res, pos, data)
                log.append((self.name, snap(res)))
                return key, res, pos

        s = Sampler(2, 4, jax.random.PRNGKey(ctx.seed + 7), resources=b.resources, strategies={n: M(v, n) for n, v in b.strategies.items()}, strategy_order=b.strategy_order)
        x0 = np.random.RandomState(0).randn(4, 2).astype(np.float32)
        s.sample(jnp.asarray(x0), {"m": 1.2})
        fin = log[-1][1]
        for n in ("positions_training", "log_prob_training", "positions_production", "log_prob_production", "loss_buffer", "tempered_positions"):
            ctx.check(np.isfinite(fin[n]).all(), f"{k}:{n}", f"{n} is not completely filled")
        first = [c["tempered_positions"] for n, c in log if np.isfinite(c["tempered_positions"]).all()][0]
        ctx.check(np.array_equal(first, np.repeat(x0[:, None], cfg["nt"] - 1, 1)), f"{k}:init", "tempered walkers do not start at their chain's initial position")
        same = lambda a, b: all(np.array_equal(x, y) for x, y in zip(a, b)) if isinstance(a, list) else np.array_equal(a, b)
        last_train = [i for i, (n, c) in enumerate(log) if not np.isfinite(c["positions_production"]).any()]
        # production starts with the state update; everything after the last training global step is production
        end = max(i for i in last_train if not same(log[i][1]["positions_training"], log[i - 1][1]["positions_training"]))
        moved = 0
        for (n1, a), (n2, c) in zip(log[end:-1], log[end + 1:]):
            for n in ("positions_training", "log_prob_training", "local_accs_training", "global_accs_training", "loss_buffer", "model", "global_sampler", "optimizer", "temperatures"):
                ctx.check(same(a[n], c[n]), f"{k}:production:{n}", f"{n2} changes {n} during production")
            moved += not same(a["tempered_positions"], c["tempered_positions"])
        ctx.check(moved == cfg["P"], f"{k}:evolve", f"tempered walkers moved in {moved} of {cfg['P']} production loops")
        t = fin["temperatures"]
        ctx.check(t[0] == 1.0 and t[-1] == 8.0 and (np.diff(t) >= 0).all(), f"{k}:ladder", f"ladder {t.tolist()}")
        ctx.count(states=len(log), transitions=len(log), traces=1)


PARTS = {f"spy{i}": (spy(i), {}) for i in range(N)}
PARTS["densities"] = (densities, {})
PARTS["real"] = (real, {})
