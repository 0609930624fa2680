"""C20: training returns the best model it saw, with its optimizer state."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax

import fmlib
import mc
from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Path, Scheduler, Solver
from flowMC.resource.model.nf_model.base import NFModel

LEVEL = "model_checking"
BOUNDS = ("every sequence of epoch losses over {-1e12, -1, 0, 2, 1e12, NaN, +inf, -inf} (flow matching: the non-negative ones) up to 4 epochs, one and two optimizer steps "
          "per epoch, continued from a previous training or not, run through the real train() with a model whose loss is a table indexed by its number of updates; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["the loss recorded for an epoch is the one train() returns for it"]


class Table(NFModel):
    """log_prob = -table[number of updates]; w counts the updates."""

    w: jax.Array
    table: jax.Array
    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array

    def __init__(self, table):
        self.w = jnp.zeros(())
        self.table = jnp.asarray(table, jnp.float32)
        self._n_features = 2
        self._data_mean = jnp.zeros(2) + 7.0
        self._data_cov = jnp.eye(2) * 7.0

    def log_prob(self, x):
        return -jax.lax.stop_gradient(self.table)[jnp.round(self.w).astype(int)] + 0.0 * jnp.sum(self.w)

    def sample(self, rng_key, n_samples):
        return jnp.zeros((n_samples, 2))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


class TableNet(eqx.Module):
    w: jax.Array
    table: jax.Array
    n_input: int = 3
    n_output: int = 2

    def __call__(self, x):
        return jax.lax.stop_gradient(self.table)[jnp.round(self.w).astype(int)] + jnp.zeros(2) + 0.0 * self.w


class Still(Scheduler):
    """velocity zero: the loss is the mean square of the network"""

    def __call__(self, t):
        return t, 0.0, 1.0 - t, 0.0


def fm_table(table):
    return FlowMatchingModel(Solver(TableNet(jnp.zeros(()), jnp.asarray(table, jnp.float32))), Path(Still()), jnp.zeros(2) + 7.0, jnp.eye(2) * 7.0)


def counting(get):
    """every update adds one to w; the optimizer state counts them too"""

    def init(params=None):
        return {"n": jnp.zeros((), jnp.int32), "seen": jnp.zeros(())}

    def update(grads, state, params=None):
        up = jax.tree_util.tree_map(jnp.zeros_like, grads)
        up = eqx.tree_at(get, up, jnp.ones(()))
        return up, {"n": state["n"] + 1, "seen": state["seen"] * 2 + 1}

    return optax.GradientTransformation(init, update)


NF_AL = [-1e12, -1.0, 0.0, 2.0, 1e12, np.nan, np.inf, -np.inf]
FM_AL = [0.0, 1.0, 3.0, 1e7, np.nan, np.inf]


def best(losses):
    b, e = np.inf, None
    for i, l in enumerate(losses):
        if l < b:
            b, e = l, i
    return e


def run(kind, ctx, seqs, spe, tag, verbose=False):
    N = max(4, spe)
    x1 = jnp.asarray(np.random.default_rng(0).normal(size=(N, 2)), jnp.float32)
    data = x1 if kind == "nf" else (x1, x1, jnp.linspace(0.1, 0.9, N)[:, None])
    get = (lambda m: m.w) if kind == "nf" else (lambda m: m.solver.model.w)
    optim = counting(get)
    mean, cov = np.asarray(jnp.mean(x1, 0)), np.asarray(jnp.cov(x1.T))
    wins = set()
    for seq in seqs:
        E = len(seq)
        # the last step of an epoch decides its loss; earlier steps get distracting values
        table = []
        for l in seq:
            table += [(-5e5 if l == l else 3.0) if kind == "nf" else 1e-3] * (spe - 1) + [l]
        table += [-7e13 if kind == "nf" else 0.0]
        make = Table if kind == "nf" else fm_table
        m = make(np.pad(np.array(table, np.float32), (0, max(16, 512 * (len(table) > 16)) - len(table))))
        s0 = optim.init()
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            key, m2, s2, losses = m.train(jax.random.PRNGKey(1), data, optim, s0, E, N // spe, verbose=verbose)
        h = f"{kind}-spe{spe}{tag}:" + ",".join(str(x) for x in seq)
        got = np.asarray(losses)
        want = np.array(seq, np.float32) if kind == "nf" else (np.array(seq, np.float32) ** 2)
        d = dict(losses=[str(x) for x in seq])
        fam = f"{kind}-spe{spe}{tag}"
        ctx.check(got.shape == (E,) and np.allclose(got, want, rtol=1e-6, atol=0, equal_nan=True), fam + ":losses", f"losses of {h} are recorded as {got.tolist()}", **d)
        e = best(got)
        w = float(get(m2))
        exp = 0 if e is None else spe * (e + 1)
        wins.add(e)
        ctx.check(w == exp, fam + f":model", f"losses {list(want)}: the model after {w:g} updates is returned, must be the one after {exp} ({'untrained' if e is None else f'end of epoch {e + 1}'})", **d)
        ctx.check(int(s2["n"]) == exp and (float(s2["seen"]) == 2.0**exp - 1 or exp > 23), fam + ":state", f"losses {list(want)}: the optimizer state after {int(s2['n'])} updates is returned with the model of {exp}", **d)
        if e is not None:
            ctx.check(np.allclose(m2._data_mean, mean) and np.allclose(m2._data_cov, cov), fam + ":stats", "the returned model does not carry the statistics of the training data", **d)
        ctx.check(float(get(m)) == 0 and int(s0["n"]) == 0, fam + ":mutated", "the model or optimizer state passed in is modified", **d)
        ctx.count(states=E * spe + 1, transitions=E * spe, traces=1)
    return wins


def nf(first):
    def part(ctx):
        full = 4 if not ctx.thorough else 5
        al = NF_AL if ctx.thorough else [a for a in NF_AL if a not in (-1e12, -np.inf)] + [-np.inf]
        seqs = [s for n in range(1, full + 1) for s in itertools.product(NF_AL if n < full else al, repeat=n) if s[0] is NF_AL[first] or (s[0] == NF_AL[first])]
        if first == 5:
            seqs = [s for n in range(1, full + 1) for s in itertools.product(NF_AL if n < full else al, repeat=n) if s[0] != s[0]]
        wins = run("nf", ctx, seqs, 1, "")
        ctx.sample({"first loss": str(NF_AL[first]), "sequences": len(seqs), "winning epochs": sorted(str(w) for w in wins)})
    return part


def nf2(ctx):
    wins = run("nf", ctx, [s for n in (1, 2, 3) for s in itertools.product([-1.0, 2.0, 1e12, np.nan, np.inf], repeat=n)], 2, "")
    ctx.reach(len(wins) >= 4, "several winning epochs")
    # verbose runs and long ones take the progress-bar branch
    long = [tuple(np.roll(np.arange(12.0), k)) for k in (0, 3, 11)]
    run("nf", ctx, long, 1, "-verbose", verbose=True)
    run("nf", ctx, [s for s in itertools.product([-1.0, 2.0, np.nan], repeat=3)], 1, "-verbose", verbose=True)


def fm(ctx):
    n = 4 if ctx.thorough else 3
    wins = run("fm", ctx, [s for k in range(1, n + 1) for s in itertools.product(FM_AL, repeat=k)], 1, "")
    ctx.reach(len(wins) >= 4, "several winning epochs")


def fm4(ctx):
    run("fm", ctx, list(itertools.product([0.0, 3.0, 1e7, np.nan], repeat=4)), 1, "")


def fm2(ctx):
    run("fm", ctx, [s for k in (1, 2, 3) for s in itertools.product([1.0, 3.0, 1e7, np.nan, np.inf], repeat=k)], 2, "")
    long = [tuple(np.roll(np.arange(12.0), k)) for k in (0, 3, 11)]
    run("fm", ctx, long, 1, "-verbose", verbose=True)


def long(ctx):
    """Many epochs, with and without the progress bar; many optimizer steps per epoch"""
    up = lambda E: 5.0 + np.arange(E)
    for kind in ("nf", "fm"):
        for E, verbose in itertools.product((15, 30, 110), (False, True)):
            seqs = [np.roll(up(E), k) for k in (0, 1, E // 2, E - 1)]
            seqs += [np.where(np.arange(E) % 3 == r, np.nan, up(E)[::-1]) for r in (0, E % 3)]
            seqs += [np.full(E, np.nan), np.full(E, 2.0), 2.0 + 1e-6 * up(E), 2.0 - 1e-6 * up(E)]
            if E == 110:
                seqs = seqs[2:4] + seqs[-2:]
            run(kind, ctx, [tuple(s.astype(np.float32)) for s in seqs], 1, f"-long{E}" + "-verbose" * verbose, verbose=verbose)
        run(kind, ctx, [tuple(np.roll(up(5), k)) for k in (0, 2, 4)] + [(np.nan, 3.0, np.nan)], 12, "-steps12")
        run(kind, ctx, [tuple(np.roll(up(3), k)) for k in (0, 1)], 70, "-steps70")


def chain(ctx):
    """Two trainings in a row: the second starts from the returned model and state."""
    for kind in ("nf", "fm"):
        N = 4
        x1 = jnp.asarray(np.random.default_rng(0).normal(size=(N, 2)), jnp.float32)
        data = x1 if kind == "nf" else (x1, x1, jnp.linspace(0.1, 0.9, N)[:, None])
        get = (lambda m: m.w) if kind == "nf" else (lambda m: m.solver.model.w)
        optim = counting(get)
        al = [1.0, 2.0, 1e10, np.nan]
        for a, b in itertools.product(itertools.product(al, repeat=2), repeat=2):
            ea = best(np.array(a) ** (1 if kind == "nf" else 2))
            w1 = 0 if ea is None else ea + 1
            tab = np.zeros(16, np.float32)
            tab[:2] = a
            # the second training reads the table from where the returned model stands
            m = (Table if kind == "nf" else fm_table)(tab)
            with contextlib.redirect_stdout(io.StringIO()):
                _, m2, s2, _ = m.train(jax.random.PRNGKey(1), data, optim, optim.init(), 2, N, verbose=False)
                if not ctx.check(float(get(m2)) == w1 and int(s2["n"]) == w1, f"{kind}-chain:first", f"losses {a}: {float(get(m2)):g} updates"):
                    continue
                tab2 = np.zeros(16, np.float32)
                tab2[w1 : w1 + 2] = b
                m2 = eqx.tree_at(lambda q: q.table if kind == "nf" else q.solver.model.table, m2, jnp.asarray(tab2))
                _, m3, s3, l3 = m2.train(jax.random.PRNGKey(2), data, optim, s2, 2, N, verbose=False)
            eb = best(np.array(b) ** (1 if kind == "nf" else 2))
            w2 = w1 + (0 if eb is None else eb + 1)
            ctx.check(float(get(m3)) == w2 and int(s3["n"]) == w2, f"{kind}-chain:second", f"losses {a} then {b}: model after {float(get(m3)):g}, optimizer state after {int(s3['n'])} updates, must be {w2}")
            ctx.count(states=4, transitions=4, traces=1)


PARTS = {f"nf{i}": (nf(i), {}) for i in range(8)}
PARTS.update({"nf-two-steps": (nf2, {}), "fm": (fm, {}), "fm-four": (fm4, {}), "fm-two-steps": (fm2, {}), "chain": (chain, {}), "long": (long, {})})
