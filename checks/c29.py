"""C29: a whole run is exactly the Markov chain of its kernels, for every outcome of every draw."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
from jax.extend.random import define_prng_impl

import mc
import stubs
import tape as T
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.Sampler import Sampler

LEVEL = "model_checking"
BOUNDS = ("whole runs of the bundle (training and production loops, thinning, chain batching) on a lattice target, with a lattice random walk as local kernel and the real flow proposal on a lattice flow; "
          "every joint outcome of every draw of the run is executed (one chain per outcome, up to 5 kernel steps and 2^17 outcomes per configuration) from every initial state; "
          "the exact law of each recorded history is compared with the explicit Markov chain, and the law of every recorded step started from the target with the target")
ASSUMPTIONS = ["jax.random's uniform is a correct function of the bits it draws", "the local kernel of these runs is a lattice random walk: MALA, HMC and the random walk themselves are C01-C03"]


def mix64(k, b):
    a = T.mix(k[0], b)
    return jnp.stack([a, T.mix(k[1] ^ jnp.uint32(0xA5A5A5A5), T.mix(jnp.asarray(b, jnp.uint32), k[0]))], -1)


def table_impl(ids, words):
    """Keys are 64-bit node ids; a draw looks its words up in a table of (id -> words)."""
    ids = np.asarray(ids, np.uint64)
    order = np.argsort(ids)
    ids, words = jnp.asarray(ids[order]), jnp.asarray(np.asarray(words, np.uint32)[order])

    def seed(s):
        return jnp.stack([s.astype(jnp.uint32), jnp.uint32(17)])

    def split(key, shape):
        n = int(np.prod(shape))
        return jax.vmap(lambda i: mix64(key, i))(jnp.arange(1, n + 1, dtype=jnp.uint32)).reshape(*shape, 2)

    def fold_in(key, d):
        return mix64(key, d.astype(jnp.uint32) + jnp.uint32(1000003))

    def random_bits(key, width, shape):
        n = int(np.prod(shape))
        v = jax.vmap(lambda i: T.mix(T.mix(key[0], i), key[1]))(jnp.arange(n, dtype=jnp.uint32))
        if len(ids):
            x = (key[0].astype(jnp.uint64) << 32) | key[1].astype(jnp.uint64)
            i = jnp.minimum(jnp.searchsorted(ids, x), len(ids) - 1)
            w = words[i]
            v = jnp.where(ids[i] == x, jnp.concatenate([w, jnp.zeros(n, jnp.uint32)])[:n], v)
        dt = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32, 64: jnp.uint64}[width]
        if width == 64:
            v = v.astype(jnp.uint64) << 32
        elif width < 32:
            v = v >> (32 - width)
        return v.astype(dt).reshape(shape)

    return define_prng_impl(key_shape=(2,), seed=seed, split=split, random_bits=random_bits, fold_in=fold_in, name=f"table{next(T._CNT)}", tag="tb")


# the lattice: pi on {0,1,2}; the walk proposes +-1; the flow proposes from q
PI = np.array([4.0, 2.0, 1.0]) / 7
Q = np.array([0.5, 0.25, 0.25])
LOGPI = np.log(PI)
K = 3


def target(x, data):
    return jnp.asarray(LOGPI)[jnp.round(x[0]).astype(int)] * data["one"]


TAPES = {}  # kernel call -> tape of its draws, discovered from the code itself


def local_step(key, x, cur, logpdf, data):
    a, b = jax.random.split(key)
    y = x + jnp.where(jax.random.uniform(a) < 0.5, -1.0, 1.0)
    inside = (y[0] > -0.5) & (y[0] < K - 0.5)
    y = jnp.where(inside, y, x)
    acc = inside & (jnp.log(jax.random.uniform(b)) < logpdf(y, data) - cur)
    return jnp.where(acc, y, x), jnp.where(acc, logpdf(y, data), cur), acc


REAL = NFProposal.kernel


def global_step(model):
    prop = NFProposal(model, n_NFproposal_batch_size=2)
    return lambda *a: REAL(prop, *a)


def discover_calls(ng):
    x, d = jnp.zeros(1), {"one": 1.0}
    TAPES["local"] = T.discover(lambda k: local_step(k, x, target(x, d), target, d))[0]
    step = global_step(stubs.LatticeFlow(Q))
    d = {"one": 1.0, "n_steps": ng}
    TAPES["global", ng] = T.discover(lambda k: step(k, x, target(x, d), target, d))[0]


def call(name, step, rng_key, position, log_prob, logpdf, data):
    """One kernel call: its draws come from the block of words that belongs to its key, and the key is noted.

    position = [state, calls so far, key of call 1 (2 words), key of call 2, ...]"""
    tape = TAPES[name]
    block = jax.random.bits(rng_key, (tape.S,), dtype=jnp.uint32)
    key = jax.random.wrap_key_data(jnp.concatenate([jnp.array([T.ROOT], jnp.uint32), block]), impl=tape.impl)
    p, lp, acc = step(key, position[:1], log_prob, logpdf, data)
    n = jnp.round(position[1]).astype(int)
    rest = position[1:].at[0].add(1.0)
    kd = jax.random.key_data(rng_key).astype(position.dtype)
    return p, lp, acc, jax.lax.dynamic_update_slice(rest, kd, (1 + 2 * n,))


def local_kernel(self, rng_key, position, log_prob, logpdf, data):
    p, lp, acc, rest = call("local", local_step, rng_key, position, log_prob, logpdf, data)
    return jnp.concatenate([p, rest]), lp, acc


def global_kernel(self, rng_key, position, log_prob, logpdf, data):
    n = data["n_steps"]
    p, lp, acc, rest = call(("global", n), global_step(self.model), rng_key, position, log_prob, logpdf, data)
    return jnp.concatenate([p, jnp.repeat(rest[None], n, 0)], 1), lp, acc


def run_bundle(cfg, impl, x0, n_calls):
    C = len(x0)
    D = 2 + 2 * n_calls
    b = RQSpline_MALA_Bundle(jax.random.PRNGKey(1), C, D, target, cfg["nl"], cfg["ng"], cfg["T"], cfg["P"], 1, chain_batch_size=cfg["b"], rq_spline_hidden_units=[2],
                             rq_spline_n_bins=2, rq_spline_n_layers=1, batch_size=100, n_max_examples=100, local_thinning=cfg["tl"], global_thinning=cfg["tg"])
    r = b.resources
    m = stubs.LatticeFlow(Q, D)
    m1 = stubs.LatticeFlow(Q)
    r["model"] = m1
    r["global_sampler"] = eqx.tree_at(lambda g: g.model, r["global_sampler"], m1)
    r["optimizer"].optim = optax.set_to_zero()
    r["optimizer"].optim_state = r["optimizer"].optim.init(eqx.filter(m1, eqx.is_array))
    pos = np.zeros((C, D))
    pos[:, 0] = x0
    key = jax.random.wrap_key_data(jnp.asarray([3, 5], jnp.uint32), impl=impl)
    strategies = dict(b.strategies)
    s = Sampler(D, C, key, resources=r, strategies=strategies, strategy_order=[n for n in b.strategy_order if n != "model_trainer"])
    with contextlib.redirect_stdout(io.StringIO()), stubs.spy_kernels(local_kernel, global_kernel):
        s.sample(jnp.asarray(pos), {"one": 1.0})
    return {n: np.asarray(r[n].data) for n in ("positions_training", "log_prob_training", "positions_production", "log_prob_production", "local_accs_training", "local_accs_production", "global_accs_training", "global_accs_production")}


def matrices():
    Lc = np.zeros((K, K))
    G = np.zeros((K, K))
    for i in range(K):
        for j in (i - 1, i + 1):
            if 0 <= j < K:
                Lc[i, j] += 0.5 * min(1, PI[j] / PI[i])
        Lc[i, i] = 1 - Lc[i].sum()
        for j in range(K):
            if j != i:
                G[i, j] = Q[j] * min(1, PI[j] * Q[i] / (PI[i] * Q[j]))
        G[i, i] = 1 - G[i].sum()
    return Lc, G


def schedule(cfg):
    """kernel of every step of the run, whether it is recorded; and the kernel calls."""
    steps, calls = [], []
    for ph, loops in (("T", cfg["T"]), ("P", cfg["P"])):
        for _ in range(loops):
            for k in range(cfg["nl"]):
                steps.append(("L", ph, k % cfg["tl"] == 0))
                calls.append("local")
            for k in range(cfg["ng"]):
                steps.append(("G", ph, k % cfg["tg"] == 0))
            calls.append(("global", cfg["ng"]))
            # steps after the last recorded one of a segment are dropped: the chain goes on from the last record
    return steps, calls


def recorded_law(cfg, i):
    """Exact law of the recorded states from state i; the chain continues from the last recorded state."""
    Lc, G = matrices()
    law = {((), i): 1.0}
    for _ in range(cfg["T"] + cfg["P"]):
        for M, n, t in ((Lc, cfg["nl"], cfg["tl"]), (G, cfg["ng"], cfg["tg"])):
            gaps = [1] + [t] * (-(-n // t) - 1)
            for g in gaps:
                Mg = np.linalg.matrix_power(M, g)
                new = {}
                for (path, s), p in law.items():
                    for j in range(K):
                        if Mg[s, j] > 0:
                            k = (path + (j,), j)
                            new[k] = new.get(k, 0) + p * Mg[s, j]
                law = new
    return {k[0]: v for k, v in law.items()}


# quantiles per word: the walk needs 2 x 2, a flow step 4 (state) x 2 (ratio 1/2)
def run_config(ctx, cfg):
    name = "-".join(f"{k}{v}" for k, v in cfg.items())
    discover_calls(cfg["ng"])
    steps, calls = schedule(cfg)
    M = 4
    axes = []
    for c in calls:
        if c == "local":
            axes += [T.quantiles(2)] * TAPES[c].S
        else:
            axes += [T.quantiles(M)] * TAPES[c].S
    N = int(np.prod([len(a) for a in axes]))
    assert N * K <= 1 << 18, f"{name}: {N} outcomes"
    grid = T.product_grid(axes)
    x0 = np.repeat(np.arange(K), N)
    C = K * N
    first = run_bundle(cfg, table_impl([], np.zeros((0, 1))), x0, len(calls))
    last = (first["positions_production"] if cfg["P"] else first["positions_training"])[:, -1]
    if not ctx.check((last[:, 1] <= len(calls)).all() and last[:, 1].min() == last[:, 1].max(), name + ":calls", f"chains made between {last[:, 1].min()} and {last[:, 1].max()} kernel calls, must be {len(calls)}"):
        return
    seen = int(last[0, 1])
    ids = last[:, 2 : 2 + 2 * seen].reshape(C, seen, 2).astype(np.uint64)
    ids = (ids[..., 0] << np.uint64(32)) | ids[..., 1]
    # calls whose result is dropped (steps after the last record) do not show: they are not followed by anything
    shown = visible_calls(cfg, calls)
    if not ctx.check(seen == len(shown), name + ":calls", f"each chain shows {seen} kernel calls, must be {len(shown)}"):
        return
    u = len(np.unique(ids))
    if not ctx.check(u == ids.size, name + ":keys", f"{ids.size} kernel calls use only {u} different keys: their draws are not independent"):
        return
    width = max(TAPES[c].S for c in calls)
    words = np.zeros((C, seen, width), np.uint32)
    off = np.cumsum([0] + [TAPES[c].S for c in calls])
    for n, ci in enumerate(shown):
        S = TAPES[calls[ci]].S
        words[:, n, :S] = np.tile(grid[:, off[ci] : off[ci] + S], (K, 1))
    out = run_bundle(cfg, table_impl(ids.reshape(-1), words.reshape(-1, width)), x0, len(calls))
    rec = np.concatenate([out["positions_training"], out["positions_production"]], 1)[:, :, 0]
    lps = np.concatenate([out["log_prob_training"], out["log_prob_production"]], 1)
    if not ctx.check(np.isfinite(rec).all(), name + ":holes", "a history has entries that were never recorded"):
        return
    st = np.round(rec).astype(int)
    ctx.check(np.abs(lps - LOGPI[st]).max() < 1e-6, name + ":logprob", "recorded log-probability is not the target's at the recorded state")
    R = st.shape[1]
    code = (st * K ** np.arange(R)).sum(1)
    laws = []
    for i in range(K):
        law = recorded_law(cfg, i)
        vals, cnt = np.unique(code[i * N : (i + 1) * N], return_counts=True)
        got = {tuple(int(v) // K**r % K for r in range(R)): c / N for v, c in zip(vals, cnt)}
        bad = [(p, got.get(p, 0), law.get(p, 0)) for p in set(got) | set(law) if abs(got.get(p, 0) - law.get(p, 0)) > 1e-9]
        if bad:
            bad.sort(key=lambda b: -abs(b[1] - b[2]))
            ctx.violation(name + ":law", f"from state {i} the run records the history {bad[0][0]} with probability {bad[0][1]:.6f}, must be {bad[0][2]:.6f} ({len(bad)} histories)", init=i, path=bad[0][0], got=bad[0][1], want=bad[0][2], cfg=cfg)
        laws.append([np.bincount(st[i * N : (i + 1) * N, r], minlength=K) / N for r in range(R)])
        ctx.count(states=len(law), transitions=N * len(steps), traces=N)
    for r in range(R):
        d = sum(PI[i] * laws[i][r] for i in range(K))
        ctx.check(np.abs(d - PI).max() < 1e-9, name + f":target{r}", f"started from the target, recorded step {r} has the law {d.tolist()} instead of {PI.tolist()}")
    ctx.sample({"config": cfg, "outcomes": N, "recorded": R, "histories": len(recorded_law(cfg, 0))})


def visible_calls(cfg, calls):
    """Kernel calls up to the last record of each segment (later ones are dropped with their draws)."""
    shown, i = [], 0
    for _ in range(cfg["T"] + cfg["P"]):
        last = (-(-cfg["nl"] // cfg["tl"]) - 1) * cfg["tl"]
        shown += list(range(i, i + last + 1))
        i += cfg["nl"]
        shown.append(i)
        i += 1
    return shown


def C(nl, ng, T, P, b=0, tl=1, tg=1):
    return dict(nl=nl, ng=ng, T=T, P=P, b=b, tl=tl, tg=tg)


def configs(*cs):
    def f(ctx):
        for c in cs:
            mc.guard(ctx, str(c) + ":exception", lambda: run_config(ctx, c))
    return f


PARTS = {
    "production": (configs(C(1, 1, 0, 1), C(2, 1, 0, 1), C(1, 1, 0, 2), C(1, 1, 0, 2, b=7), C(3, 1, 0, 1, tl=2)), {"x64": True}),
    "training": (configs(C(1, 1, 1, 0), C(1, 1, 1, 1), C(2, 1, 1, 1), C(2, 1, 1, 1, tl=2)), {"x64": True}),
    "longer": (configs(C(1, 1, 1, 1, b=64), C(4, 1, 0, 1, tl=3), C(1, 2, 0, 1), C(1, 2, 0, 1, tg=2)), {"x64": True}),
    "deep": (configs(C(2, 2, 0, 1, tg=2, b=100), C(5, 1, 0, 1, tl=2), C(2, 1, 1, 1, tl=2, b=1000), C(2, 1, 0, 2, b=32), C(1, 2, 0, 1, b=99)), {"x64": True, "thorough_only": True}),
}
