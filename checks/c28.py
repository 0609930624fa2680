"""C28: every option of a bundle reaches the component it configures, alone and in combination."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import bundles as B
import mc
import stubs
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.buffers import Buffer
from flowMC.resource.optimizer import Optimizer
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
from flowMC.Sampler import Sampler

LEVEL = "model_checking"
BOUNDS = ("construction: every option of both bundles takes two or three values; every configuration that differs from the base in at most 2 options (thorough: 3), and all defaults; "
          "runs of the tempered bundle: full product of n_tempered_steps {-1,0,1,3} x n_temperatures {2,4} x history_window {1,2,100} x epochs {1,2} under the spy components of C10; "
          "verbose on/off x chain batching: whole runs of both bundles; NFProposal batch size {1..9} x n_steps {1..8}; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["the components themselves (MALA, the spline flow, AdamW, tempered densities) are decided by C02, C16-C18, C26 and C13"]

DATA = {"m": jnp.array(0.3)}


def lp1(x, data):
    return -0.5 * jnp.sum((x - data["m"]) ** 2)


def lp2(x, data):
    return -2.0 * jnp.sum(jnp.abs(x + data["m"]) ** 1.5)


def prior1(x, data):
    return -0.7 * jnp.sum(x**2) * data["m"]


def prior0(x, data):
    return 0.0


OPTS = {
    "rng_key": (0, 5),
    "n_chains": (2, 3),
    "n_dims": (2, 3),
    "logpdf": (lp1, lp2),
    "mala_step_size": (0.1, 0.35),
    "rq_spline_hidden_units": ([2], [3, 4], [3, 2]),
    "rq_spline_n_bins": (2, 3, 5),
    "rq_spline_n_layers": (1, 2, 3),
    "learning_rate": (1e-3, 0.05),
    "n_NFproposal_batch_size": (10000, 2, 3),
    "n_local_steps": (1, 3),
    "n_global_steps": (2, 5),
    "n_training_loops": (1, 2),
    "n_production_loops": (1, 3),
    "n_epochs": (1, 4),
    "local_thinning": (1, 2),
    "global_thinning": (1, 3),
}
PT = {
    "n_temperatures": (5, 2, 3),
    "max_temperature": (5.0, 9.0),
    "logprior": (prior0, prior1),
}
# what the documentation promises when nothing is given
DEFAULTS = dict(mala_step_size=0.1, rq_spline_hidden_units=[32, 32], rq_spline_n_bins=8, rq_spline_n_layers=4, learning_rate=1e-3, n_NFproposal_batch_size=10000, local_thinning=1, global_thinning=1)
PT_DEFAULTS = dict(n_temperatures=5, max_temperature=5.0, logprior=prior0)


def shapes(m):
    return [l.shape for l in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array))]


def leaves(m):
    return [np.asarray(l) for l in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array))]


def n_weights(d, hidden, bins, layers):
    sizes = [d] + list(hidden) + [d * (3 * bins + 1)]
    return layers * (sum(a * b + b for a, b in zip(sizes[:-1], sizes[1:])) + 2)


class Sizes:
    """custom_vmap target that notes how many points it is evaluated on at once"""

    def __init__(self, lp):
        self.seen = seen = []

        @jax.custom_batching.custom_vmap
        def f(x):
            return lp(x, DATA)

        @f.def_vmap
        def rule(axis_size, in_batched, x):
            seen.append(axis_size)
            return jax.vmap(lambda y: lp(y, DATA))(x), True

        self.f = f

    def __call__(self, x, data):
        return self.f(x)


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


N = 4
MEMO = {}


def move(kernel, d, lp, key):
    x = jnp.linspace(-0.6, 0.8, d)
    with jax.disable_jit():
        return [np.asarray(v) for v in kernel.kernel(jax.random.PRNGKey(key), x, lp(x, DATA), lp, DATA)[:2]]


def mala(d, lp, step):
    """the kernel on its own, with a key whose proposal is accepted"""
    if (d, lp, step) not in MEMO:
        for key in range(40):
            v = move(MALA(step_size=step), d, lp, key)
            if not np.array_equal(v[0], np.linspace(-0.6, 0.8, d, dtype=np.float32)) and abs(v[1] - lp(jnp.linspace(-0.6, 0.8, d), DATA)) > 0:
                break
        MEMO[d, lp, step] = key, v
    return MEMO[d, lp, step]


def flow(d, hidden, bins, layers):
    k = (d, tuple(hidden), bins, layers)
    if k not in MEMO:
        MEMO[k] = MaskedCouplingRQSpline(d, layers, list(hidden), bins, jax.random.PRNGKey(9))
    return MEMO[k]


def examine(ctx, name, cls, cfg, given):
    pt = cls is RQSpline_MALA_PT_Bundle
    kw = {k: cfg[k] for k in given}
    kw["rng_key"] = jax.random.PRNGKey(cfg["rng_key"])
    with contextlib.redirect_stdout(io.StringIO()):
        r = mc.guard(ctx, name + ":exception", lambda: cls(**kw).resources)
    if r is None:
        return
    C, d = cfg["n_chains"], cfg["n_dims"]
    x = jnp.linspace(-0.6, 0.8, d)
    lp = cfg["logpdf"]
    show = {k: getattr(v, "__name__", v) for k, v in cfg.items() if k in given}
    # target
    v = float(r["logpdf"](x, DATA))
    ctx.check(np.isclose(v, float(lp(x, DATA)), rtol=1e-6), name + ":target", f"the target resource gives {v} instead of the user's log-density", cfg=show)
    ctx.check(r["logpdf"].n_dims == d, name + ":dims", f"the target has {r['logpdf'].n_dims} variables, must be {d}", cfg=show)
    # step size of the local kernel: compare whole kernel calls
    key, b = mala(d, lp, cfg["mala_step_size"])
    a = move(r["local_sampler"], d, lp, key)
    ctx.check(all(np.allclose(p, q, rtol=1e-5) for p, q in zip(a, b)), name + ":step-size", f"the local kernel does not act like MALA with step size {cfg['mala_step_size']}", cfg=show)
    # flow
    ref = flow(d, cfg["rq_spline_hidden_units"], cfg["rq_spline_n_bins"], cfg["rq_spline_n_layers"])
    m = r["model"]
    ctx.check(shapes(m) == shapes(ref), name + ":flow", f"the flow does not have the requested size: {shapes(m)} instead of {shapes(ref)}", cfg=show)
    ctx.check(same(leaves(m), leaves(r["global_sampler"].model)), name + ":proposal-flow", "the proposal starts with a flow different from the model resource", cfg=show)
    # optimizer: one update from fresh state
    small = jax.tree_util.tree_map(lambda l: jnp.full(l.shape, 1e-3), eqx.filter(m, eqx.is_array))
    par = eqx.filter(m, eqx.is_array)
    o = r["optimizer"]
    u = o.optim.update(small, o.optim_state, par)[0]
    q = Optimizer(model=m, learning_rate=cfg["learning_rate"])
    w = q.optim.update(small, q.optim_state, par)[0]
    ctx.check(all(np.allclose(a, b, rtol=1e-6, atol=1e-9) for a, b in zip(leaves(u), leaves(w))), name + ":learning-rate", f"the optimizer does not act with learning rate {cfg['learning_rate']}", cfg=show)
    # proposal batch size
    S = Sizes(lp1)
    n = 5
    tiny = eqx.tree_at(lambda g: g.model, r["global_sampler"], stubs.UniformFlow(d))
    jax.eval_shape(lambda k, y: tiny.kernel(k, y, 0.0, S, {**DATA, "n_steps": n}), jax.random.PRNGKey(0), x)
    b = cfg["n_NFproposal_batch_size"]
    ctx.check(S.seen and max(S.seen) <= b, name + ":proposal-batch", f"with n_NFproposal_batch_size={b} the target is evaluated on {max(S.seen or [0])} points at once", cfg=show)
    ctx.check(b < n or max(S.seen or [0]) == n, name + ":proposal-batch2", f"with n_NFproposal_batch_size={b} the target is evaluated on at most {max(S.seen or [0])} of {n} points at once", cfg=show)
    # histories
    per = -(-cfg["n_local_steps"] // cfg["local_thinning"]) + -(-cfg["n_global_steps"] // cfg["global_thinning"])
    want = {"training": per * cfg["n_training_loops"], "production": per * cfg["n_production_loops"]}
    for ph, k in want.items():
        for nm, shp in (("positions", (C, k, d)), ("log_prob", (C, k)), ("local_accs", (C, k)), ("global_accs", (C, k))):
            g = r[f"{nm}_{ph}"].data.shape
            ctx.check(tuple(g) == shp, name + f":{nm}_{ph}", f"{nm}_{ph} holds {g}, must hold {shp}", cfg=show)
    g = r["loss_buffer"].data.shape
    ctx.check(tuple(g) == (cfg["n_epochs"] * cfg["n_training_loops"],), name + ":loss", f"the loss history holds {g}", cfg=show)
    if pt:
        t = np.asarray(r["temperatures"].data)
        wt = np.linspace(1.0, cfg["max_temperature"], cfg["n_temperatures"])
        ctx.check(t.shape == wt.shape and np.allclose(t, wt, rtol=1e-6), name + ":ladder", f"the ladder starts as {t.tolist()}, must be {wt.tolist()}", cfg=show)
        g = r["tempered_positions"].data.shape
        ctx.check(tuple(g) == (C, cfg["n_temperatures"] - 1, d), name + ":walkers", f"tempered walkers have shape {g}", cfg=show)
        for T in (1.0, 2.5):
            v = float(r["tempered_logpdf"].tempered_log_pdf(T, x, DATA))
            e = float(lp(x, DATA)) / T + float(cfg["logprior"](x, DATA))
            ctx.check(np.isclose(v, e, rtol=1e-5), name + ":tempered", f"at T={T} the tempered density is {v}, must be {e}", cfg=show)
    ctx.count(states=1, transitions=1, traces=1)
    return leaves(m)


def construct(cls, part):
    def run(ctx):
        pt = cls is RQSpline_MALA_PT_Bundle
        opts = {**OPTS, **(PT if pt else {})}
        base = {k: v[0] for k, v in opts.items()}
        depth = 3 if ctx.thorough else 2
        names = list(opts)
        # the size of the flow follows its options
        for d in (2, 3) if part == 0 else ():
            for h, b, l in itertools.product(*[opts[k] for k in ("rq_spline_hidden_units", "rq_spline_n_bins", "rq_spline_n_layers")]):
                tot = lambda m: sum(int(np.prod(s)) for s in shapes(m))
                got = tot(flow(d, h, b, l)) - tot(flow(d, [2], 2, 1))
                want = n_weights(d, h, b, l) - n_weights(d, [2], 2, 1)
                ctx.check(got == want, f"size-{d}-{h}-{b}-{l}", f"a flow with {l} layers, hidden {h} and {b} bins has {got - want} parameters too many")
        cfgs = [base]
        for k in range(1, depth + 1):
            for which in itertools.combinations(names, k):
                vals = [opts[n][1:] if ctx.thorough or k == 1 else opts[n][1:2] for n in which]
                for vs in itertools.product(*vals):
                    cfgs.append({**base, **dict(zip(which, vs))})
        models = {}
        cfgs = [c for i, c in enumerate(cfgs) if i % N == part or c == base or set(k for k in c if c[k] != base[k]) == {"rng_key"}]
        for n, cfg in enumerate(cfgs):
            if n % 100 == 99:
                jax.clear_caches()  # compiled code is dropped: one process can only hold so much
            diff = {k: getattr(v, "__name__", v) for k, v in cfg.items() if v != base[k]}
            m = examine(ctx, "-".join(f"{k}={v}" for k, v in diff.items()) or "base", cls, cfg, names)
            if m is not None and not set(diff) - {"rng_key"}:
                models[cfg["rng_key"]] = m
        if len(models) == 2:
            a, b = models.values()
            ctx.check(not same(a, b), "rng_key", "the flow's initial parameters do not depend on the key given to the bundle")
        if part:
            return
        # nothing but the required arguments
        need = ["rng_key", "n_chains", "n_dims", "logpdf", "n_local_steps", "n_global_steps", "n_training_loops", "n_production_loops", "n_epochs"]
        examine(ctx, "defaults", cls, {**base, **DEFAULTS, **(PT_DEFAULTS if pt else {})}, need)
        ctx.sample({"bundle": cls.__name__, "configurations": len(cfgs) + 1})
    return run


def tempered_runs(ctx):
    jax.config.update("jax_disable_jit", True)
    n = 0
    for steps, nt, win, E in itertools.product((-1, 0, 1, 3), (2, 4), (1, 2, 100), (1, 2)):
        if not ctx.thorough and (win == 2) != (E == 2):
            continue
        cfg = dict(C=2, nl=2, ng=1, tl=1, tg=1, T=2, P=1, E=E)
        k = f"run-steps{steps}-nt{nt}-window{win}-E{E}"
        with contextlib.redirect_stdout(io.StringIO()):
            r = mc.guard(ctx, k + ":exception", lambda: B.run(RQSpline_MALA_PT_Bundle, cfg, n_tempered_steps=steps, n_temperatures=nt, max_temperature=7.0, history_window=win))
        if r is None:
            continue
        log, x0, s = r
        want = steps if steps > 0 else cfg["nl"]
        B.verify(ctx, k, cfg, log, x0, s, B.reference(cfg, x0, (nt - 1, want)), window=win)
        n += 1
    # training sets, windows, batches and stages far beyond the sizes above
    for cls, over, kw in (
        (RQSpline_MALA_PT_Bundle, dict(C=1, ng=1400, span=3000, nmax=32000, bs=32000), dict(n_tempered_steps=1, n_temperatures=2, history_window=1300)),
        (RQSpline_MALA_PT_Bundle, dict(C=1, ng=3, nmax=40, bs=4, E=3), dict(n_tempered_steps=30, n_temperatures=2, history_window=50)),
        (RQSpline_MALA_PT_Bundle, dict(C=2, ng=3, T=1), dict(n_tempered_steps=2, n_temperatures=12, history_window=100)),
        (RQSpline_MALA_Bundle, dict(C=1, ng=130, span=800, nmax=12000, bs=12000), {}),
    ):
        cfg = {**dict(C=2, nl=2, ng=1, tl=1, tg=1, T=2, P=1, E=1), **over}
        k = "big-" + "-".join(f"{a}{v}" for a, v in {**over, **kw}.items())
        with contextlib.redirect_stdout(io.StringIO()):
            r = mc.guard(ctx, k + ":exception", lambda: B.run(cls, cfg, **kw, **(dict(max_temperature=7.0) if kw else {})))
        if r is None:
            continue
        log, x0, s = r
        B.verify(ctx, k, cfg, log, x0, s, B.reference(cfg, x0, (kw["n_temperatures"] - 1, kw["n_tempered_steps"]) if kw else None), window=kw.get("history_window", 100))
        n += 1
    ctx.sample({"runs": n})


def whole(cls, verbose, b):
    kw = dict(n_temperatures=2, max_temperature=4.0) if cls is RQSpline_MALA_PT_Bundle else {}
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        bd = cls(jax.random.PRNGKey(1), 4, 2, lp1, 2, 2, 2, 1, 2, mala_step_size=0.4, chain_batch_size=b, rq_spline_hidden_units=[3], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=5, n_max_examples=10, verbose=verbose, **kw)
        s = Sampler(2, 4, jax.random.PRNGKey(3), resource_strategy_bundles=bd, verbose=verbose)
        s.sample(0.3 * jnp.arange(8.0).reshape(4, 2) - 1, DATA)
    return {n: np.asarray(r.data) for n, r in s.resources.items() if isinstance(r, Buffer)}, leaves(s.resources["model"])


def progress(ctx):
    """Progress output never changes a result; neither does the size of the chain batches."""
    for cls in (RQSpline_MALA_Bundle, RQSpline_MALA_PT_Bundle):
        ref = None
        for v, b in itertools.product((False, True), (0, 3)):
            k = f"{cls.__name__}-verbose{int(v)}-batch{b}"
            r = mc.guard(ctx, k + ":exception", lambda: whole(cls, v, b))
            if r is None:
                continue
            ref = ref or r
            for n in ref[0]:
                ctx.check(np.allclose(r[0][n], ref[0][n], rtol=1e-4, atol=1e-5), k + ":" + n, f"{n} depends on verbose={v}, chain_batch_size={b}")
            ctx.check(all(np.allclose(p, q, rtol=1e-3, atol=1e-4) for p, q in zip(r[1], ref[1])), k + ":model", f"the trained flow depends on verbose={v}, chain_batch_size={b}")
            ctx.count(states=len(r[0]), transitions=1, traces=1)
    ctx.sample({"runs": 8})


def proposal_batches(ctx):
    for n, b in itertools.product(range(1, 9 if not ctx.thorough else 13), range(1, 10 if not ctx.thorough else 15)):
        S = Sizes(lp1)
        k = f"n{n}-batch{b}"
        r = mc.guard(ctx, k + ":exception", lambda: jax.eval_shape(lambda k, x: NFProposal(stubs.UniformFlow(2), n_NFproposal_batch_size=b).kernel(k, x, 0.0, S, {**DATA, "n_steps": n}), jax.random.PRNGKey(n), jnp.zeros(2)))
        if r is None:
            continue
        ctx.check(r[0].shape == (n, 2), k + ":shape", f"{n} steps return positions of shape {r[0].shape}")
        ctx.check(not S.seen or max(S.seen) <= b, k + ":batch", f"batch size {b}, {n} steps: the target is evaluated on {max(S.seen or [0])} points at once")
        ctx.count(states=1, transitions=n, traces=1)
    ctx.sample({"n_steps": "1..8", "batch": "1..9"})


def large(ctx):
    """the same examination of large configurations"""
    base = {k: v[0] for k, v in OPTS.items()}
    cfgs = [
        dict(n_chains=100, n_dims=12, rq_spline_hidden_units=[64, 32, 16], rq_spline_n_layers=12, rq_spline_n_bins=20, n_local_steps=200, n_global_steps=150, n_training_loops=30, n_production_loops=25, n_epochs=40, local_thinning=7, global_thinning=11, n_temperatures=20, max_temperature=1e4, mala_step_size=2.5, learning_rate=0.9),
        dict(n_chains=1, n_dims=1, rq_spline_hidden_units=[128, 128], rq_spline_n_layers=5, rq_spline_n_bins=64, n_local_steps=1000, n_global_steps=1, n_training_loops=1, n_production_loops=100, n_epochs=1, local_thinning=1000, global_thinning=2, n_temperatures=2, max_temperature=1.5, mala_step_size=1e-4, learning_rate=1e-6, n_NFproposal_batch_size=4),
        dict(n_chains=17, n_dims=20, rq_spline_hidden_units=[5] * 6, rq_spline_n_layers=9, rq_spline_n_bins=9, n_local_steps=33, n_global_steps=65, n_training_loops=12, n_production_loops=1, n_epochs=15, local_thinning=50, global_thinning=64, n_temperatures=9, max_temperature=33.0, n_NFproposal_batch_size=1),
    ]
    for cls, (i, c) in itertools.product((RQSpline_MALA_Bundle, RQSpline_MALA_PT_Bundle), enumerate(cfgs)):
        pt = cls is RQSpline_MALA_PT_Bundle
        cfg = {**base, **({k: v[0] for k, v in PT.items()} if pt else {}), **{k: v for k, v in c.items() if pt or k not in PT}}
        examine(ctx, f"{cls.__name__}-large{i}", cls, cfg, list(cfg))
        jax.clear_caches()
    ctx.sample({"configurations": len(cfgs)})


PARTS = {
    "large": (large, {}),
    "runs": (tempered_runs, {}),
    "progress": (progress, {}),
    "proposal": (proposal_batches, {}),
}

for i in range(N):
    PARTS[f"plain{i}"] = (construct(RQSpline_MALA_Bundle, i), {})
    PARTS[f"tempered{i}"] = (construct(RQSpline_MALA_PT_Bundle, i), {})
