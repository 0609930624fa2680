"""C26: the optimizer resource is AdamW on norm-clipped gradients with the options it was given."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import mc
from flowMC.resource.model.nf_model.base import NFModel
from flowMC.resource.optimizer import Optimizer

LEVEL = "model_checking"
BOUNDS = ("every sequence of gradients over an alphabet of 7 (zero, tiny, below, at and above the clipping norm, huge, other sign pattern) to depth 4 (5 thorough) for every combination "
          "of learning rate {default, 1e-4, 0.05, 3} and momentum {default, 0, 0.5, 0.99}, through the optimizer alone and through the real train_step, from two parameter states, "
          "one or two optimizers used alternately; compared with a reference AdamW after every update; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["second-moment decay 0.999, epsilon 1e-8, weight decay 1e-4 and clipping norm 1 are the documented defaults of the optimizer in use"]

# gradients for leaves (2,), (1,2)
ALPH = [
    [0.0, 0.0, 0.0, 0.0],
    [1e-6, -2e-6, 0.0, 3e-6],
    [0.1, -0.2, 0.3, 0.1],
    [0.6, 0.0, -0.8, 0.0],
    [1.5, -0.5, 2.0, 1.0],
    [1e4, 2e4, -3e4, 1e3],
    [-0.4, 0.0, 0.0, -30.0],
]
P0 = [[0.5, -1.0, 2.0, 0.0], [-3.0, 0.25, 0.0, 10.0]]


class Lin(NFModel):
    """loss = a . g : its gradient is the batch itself"""

    a: jax.Array
    b: jax.Array
    note: str
    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array

    def __init__(self, p):
        self.a = jnp.asarray(p[:2])
        self.b = jnp.asarray(p[2:])[None]
        self.note = "x"
        self._n_features = 4
        self._data_mean = jnp.zeros(4)
        self._data_cov = jnp.eye(4)

    def log_prob(self, x):
        return -(jnp.sum(self.a * x[:2]) + jnp.sum(self.b[0] * x[2:]))

    def sample(self, rng_key, n_samples):
        return jnp.zeros((n_samples, 4))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


def reference(p, grads, lr, b1):
    """grads (N, T, 4) -> parameters after every update (N, T, 4)"""
    N, T, _ = grads.shape
    p = np.repeat(np.asarray(p, float)[None], N, 0)
    m = np.zeros_like(p)
    v = np.zeros_like(p)
    out = []
    for t in range(T):
        g = grads[:, t]
        n = np.sqrt((g**2).sum(1, keepdims=True))
        g = np.where(n > 1.0, g / np.maximum(n, 1e-300), g)
        m = b1 * m + (1 - b1) * g
        v = 0.999 * v + 0.001 * g**2
        mh = m / (1 - b1 ** (t + 1)) if b1 > 0 else m
        vh = v / (1 - 0.999 ** (t + 1))
        p = p - lr * (mh / (np.sqrt(vh) + 1e-8) + 1e-4 * p)
        out.append(p)
    return np.stack(out, 1)


OPTS = [dict(lr, **b1) for lr in ({}, {"learning_rate": 1e-4}, {"learning_rate": 0.05}, {"learning_rate": 3.0}) for b1 in ({}, {"momentum": 0.0}, {"momentum": 0.5}, {"momentum": 0.99})]


def flat(m):
    return jnp.concatenate([m.a, m.b[0]])


def compare(ctx, key, got, want, o, seqs, scale):
    bad = ~(np.abs(got - want) <= 1e-9 * scale * (1 + np.abs(want)) + 1e-7 * o.get("learning_rate", 1e-3)).all(-1)
    ctx.check(np.isfinite(got).all(), key + ":finite", f"non-finite parameters with options {o}")
    if bad.any():
        i, t = np.argwhere(bad)[0]
        ctx.violation(key, f"options {o}: after the gradients {seqs[i][:t + 1].tolist()} the parameters are {got[i, t].tolist()}, AdamW on clipped gradients gives {want[i, t].tolist()}", gradients=seqs[i], got=got[i, t], want=want[i, t])


def part(lo, hi):
    def run(ctx):
        depth = 5 if ctx.thorough else 4
        seqs = np.array(list(itertools.product(ALPH, repeat=depth)), float)
        for o in OPTS[lo:hi]:
            for pi, p in enumerate(P0):
                model = Lin(p)
                opt = Optimizer(model, **o)
                want = reference(p, seqs, o.get("learning_rate", 1e-3), o.get("momentum", 0.9))
                params = eqx.filter(model, eqx.is_array)

                def one(gs):
                    def step(c, g):
                        m, s = c
                        gr = eqx.tree_at(lambda t: (t.a, t.b, t._data_mean, t._data_cov), eqx.filter(m, eqx.is_array), (g[:2], g[2:][None], jnp.zeros(4), jnp.zeros((4, 4))))
                        up, s = opt.optim.update(gr, s, eqx.filter(m, eqx.is_array))
                        m = eqx.apply_updates(m, up)
                        return (m, s), flat(m)

                    return jax.lax.scan(step, (model_dyn(model), opt.optim_state), gs)[1]

                def model_dyn(m):
                    return eqx.filter(m, eqx.is_array)

                got = np.asarray(jax.jit(jax.vmap(one))(jnp.asarray(seqs)))
                compare(ctx, f"optim-{o}-{pi}", got, want, o, seqs, 1)
                ctx.count(states=got.shape[0] * depth, transitions=got.shape[0] * depth, traces=got.shape[0])
        ctx.sample({"options": OPTS[lo:hi], "sequences": len(seqs), "depth": depth, "last": want[-1][-1]})
    return run


def long(ctx):
    """Histories of 300 updates: every one of a family of periodic gradient sequences; 50 updates through the real train_step"""
    n = 300 if not ctx.thorough else 2000
    seqs = np.array([[ALPH[(a * t + b * (t // 7) + c) % 7] for t in range(n)] for a in range(4) for b in range(3) for c in range(7)], float)
    for o in OPTS[::3] + OPTS[-1:]:
        model = Lin(P0[0])
        opt = Optimizer(model, **o)
        want = reference(P0[0], seqs, o.get("learning_rate", 1e-3), o.get("momentum", 0.9))

        def one(gs):
            def step(c, g):
                m, s = c
                gr = eqx.tree_at(lambda t: (t.a, t.b, t._data_mean, t._data_cov), m, (g[:2], g[2:][None], jnp.zeros(4), jnp.zeros((4, 4))))
                up, s = opt.optim.update(gr, s, m)
                m = eqx.apply_updates(m, up)
                return (m, s), flat(m)

            return jax.lax.scan(step, (eqx.filter(model, eqx.is_array), opt.optim_state), gs)[1]

        got = np.asarray(jax.jit(jax.vmap(one))(jnp.asarray(seqs)))
        bad = ~(np.abs(got - want) <= 1e-7 * (1 + np.abs(want)) + 1e-6 * o.get("learning_rate", 1e-3)).all(-1)
        if bad.any():
            i, t = np.argwhere(bad)[0]
            ctx.violation(f"long-{o}", f"options {o}: after {t + 1} updates the parameters are {got[i, t].tolist()}, AdamW on clipped gradients gives {want[i, t].tolist()}")
        m, st = model, opt.optim_state
        for t in range(50):
            _, m, st = m.train_step(jnp.asarray(seqs[5, t])[None].repeat(3, 0), opt.optim, st)
            w = want[5, t]
            ctx.check(np.allclose(flat(m), w, rtol=1e-7, atol=1e-6 * o.get("learning_rate", 1e-3)), f"long-train-{o}", f"options {o}: update {t + 1} through train_step gives {np.asarray(flat(m)).tolist()}, must be {w.tolist()}")
        ctx.count(states=len(seqs) * n, transitions=len(seqs) * n + 50, traces=len(seqs) + 1)
    ctx.sample({"updates": n, "sequences": len(seqs)})


def train_part(ctx):
    """the same through the real train_step, two optimizers in turns (their states must not mix)"""
    depth = 4 if ctx.thorough else 3
    combos = [(OPTS[i], OPTS[j]) for i, j in ((0, 6), (5, 9), (14, 0), (3, 12))]
    for oa, ob in combos:
        A, B = Lin(P0[0]), Lin(P0[1])
        opts = [Optimizer(A, **oa), Optimizer(B, **ob)]
        seqs = [np.array(s) for s in itertools.product(range(len(ALPH)), repeat=depth)]
        refs = [reference(p, np.array(ALPH)[np.array(seqs)], o.get("learning_rate", 1e-3), o.get("momentum", 0.9)) for p, o in zip(P0, (oa, ob))]
        cache = {(): [(A, opts[0].optim_state), (B, opts[1].optim_state)]}
        for i, s in enumerate(seqs):
            for t in range(depth):
                k = tuple(s[: t + 1])
                if k in cache:
                    continue
                nxt = []
                for w, (m, st) in enumerate(cache[k[:-1]]):
                    x = jnp.asarray(ALPH[s[t]])[None].repeat(3, 0)
                    loss, m2, st2 = m.train_step(x, opts[w].optim, st)
                    want_loss = float(np.asarray(flat(m)) @ np.array(ALPH[s[t]]))
                    ctx.check(abs(float(loss) - want_loss) < 1e-9 * (1 + abs(want_loss)), "loss", f"loss {float(loss)} is not that of the model before the update ({want_loss})")
                    nxt.append((m2, st2))
                    ctx.count(states=1, transitions=1)
                cache[k] = nxt
            for w in range(2):
                got = np.asarray(flat(cache[tuple(s)][w][0]))
                want = refs[w][i, depth - 1]
                ctx.check(np.allclose(got, want, rtol=1e-8, atol=1e-7 * (oa, ob)[w].get("learning_rate", 1e-3)), f"train-{w}-{(oa, ob)[w]}", f"training with options {(oa, ob)[w]} on gradients {s.tolist()}: {got.tolist()} instead of {want.tolist()}")
            ctx.count(traces=1)
        for w, o in enumerate(opts):
            z = jax.tree_util.tree_leaves(o.optim_state)
            ctx.check(all(not np.any(np.asarray(v)) for v in z), f"fresh-{w}", "the optimizer resource's stored state changed although nothing stored a new one")
    ctx.sample({"pairs of options": combos, "depth": depth})


PARTS = {f"opt{i}": (part(i, i + 4), {"x64": True}) for i in range(0, 16, 4)}
PARTS["long"] = (long, {"x64": True})
PARTS["train"] = (train_part, {"x64": True})
