"""C30: every call uses the resources, data and options of that call."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import mc
import stubs
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.logPDF import LogPDF, TemperedPDF
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.states import State
from flowMC.strategy.optimization import AdamOptimization
from flowMC.strategy.parallel_tempering import ParallelTempering
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
from flowMC.strategy.train_model import TrainModel

LEVEL = "model_checking"
BOUNDS = ("for every strategy: calls whose kernel, target, data, chains, model, ladder, phase, optimizer or history take two values each, and calls for which an option (number of steps, thinning, batch sizes, epochs, noise, bounds) of the object has been changed, on two strategy objects with different options; "
          "one history of calls in which every ordered pair (thorough: triple) of calls occurs, so every call follows every other; each result is compared with the same call on a new object after all compiled code has been dropped")
ASSUMPTIONS = ["options changed on a strategy object between calls are restored to their previous values afterwards"]


def leaves(x):
    return [np.asarray(l) for l in jax.tree_util.tree_leaves(eqx.filter(x, eqx.is_array))]


def debruijn(k, n):
    """sequence over k letters containing every word of length n"""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


@contextlib.contextmanager
def having(obj, **options):
    """obj with other options for one call"""
    old = {k: getattr(obj, k) for k in options}
    for k, v in options.items():
        assert old[k] is not v, k
        setattr(obj, k, v)
    try:
        yield obj
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def make_lp(c):
    # same code, other captured value: equal in everything but what it computes
    def lp(x, data):
        return -c * jnp.sum((x - data["m"]) ** 2)

    return lp


LP = [make_lp(0.5), make_lp(3.0)]
PRIOR = [lambda x, data: 0.0 * data["m"], lambda x, data: -jnp.sum(jnp.abs(x - data["m"]))]
DATA = [{"m": jnp.array(0.3)}, {"m": jnp.array(-2.0)}]
DATA3 = DATA + [{"m": jnp.array(0.3), "extra": jnp.zeros(2)}]


def start(n, d=2):
    return 0.3 * jnp.arange(n * d, dtype=jnp.float32).reshape(n, d) - 0.5


def stepper_family(cls, kernels, axes_extra=()):
    """variant = (object, kernel, target, data[, number of chains]) or (object, options changed on the object for this call)"""
    objs = [dict(n=2, t=1, b=0), dict(n=3, t=2, b=2)]

    def make(o):
        return cls("logpdf", "kernel", "state", ["p", "l", "a"], objs[o]["n"], thinning=objs[o]["t"], chain_batch_size=objs[o]["b"])

    def call(strat, v, key):
        if isinstance(v[1], dict):
            with having(strat, **v[1]):
                return call(strat, (v[0], 0, 0, 0), key)
        o, k, l, d = v[:4]
        C = (3, 2)[v[4] if len(v) > 4 else (k + d) % 2]
        res = stubs.step_resources(kernels[k], LogPDF(LP[l], n_dims=2), C, 2, 2)
        strat.set_current_position(0)
        _, res, pos = strat(key, res, start(C), DATA[d])
        return [np.asarray(res[b].data) for b in "PLA"] + [np.asarray(pos)]

    own = [(0, dict(n_steps=1)), (1, dict(n_steps=4)), (0, dict(thinning=2)), (0, dict(chain_batch_size=2)), (1, dict(chain_batch_size=1, n_steps=2, thinning=1))]
    return make, call, lambda th: own[: 5 if th else 3] + list(itertools.product(*[range(2)] * (5 if th else 4)))


def pt_family(ks):
    def make(o):
        return ParallelTempering((1, 2)[o], "t", "k", ["p", "T"], "s")

    def call(strat, v, key):
        if isinstance(v[1], dict):
            with having(strat, **v[1]):
                return call(strat, (v[0], 0, 0, 0), key)
        o, k, l, d = v[:4]
        tr = v[4] if len(v) > 4 else (k + l + d) % 2
        P = Buffer("p", (2, 2, 2), 2)
        P.update_buffer(start(4).reshape(2, 2, 2) + 0.1)
        T = Buffer("T", (3,), 0)
        T.update_buffer(jnp.asarray(([1.0, 2.0, 4.0], [1.0, 5.0, 9.0])[l]))
        res = {"t": TemperedPDF(LP[l], PRIOR[d], n_dims=2), "k": ks[k], "p": P, "T": T, "s": State({"training": bool(tr)})}
        _, res, pos = strat(key, res, start(2), DATA[d])
        return [np.asarray(P.data), np.asarray(T.data), np.asarray(pos)]

    own = [(0, dict(n_steps=3)), (1, dict(n_steps=1)), (1, dict(n_steps=3))]
    return make, call, lambda th: own + list(itertools.product(*[range(2)] * (5 if th else 4)))


def adam_family(own_calls):
    objs = [dict(learning_rate=0.1, bounds=jnp.array([[-1.0, 1.0]])), dict(learning_rate=0.5, bounds=jnp.array([[-9.0, 9.0], [-2.0, 0.5]]))]

    def make(o):
        return AdamOptimization(LogPDF(LP[o], n_dims=2), n_steps=4, noise_level=0.5, **objs[o])

    def call(strat, v, key):
        if isinstance(v[1], dict):
            with having(strat, **v[1]):
                return call(strat, (v[0], 0, 0), key)
        if v[1] == "optimize":  # the optimizer used on its own, with an objective of the caller
            o, _, l, d = v
            _, pos, lp = strat.optimize(key, lambda x, data: -LP[l](x + 1.0, data), start(2), DATA[d])
            return [np.asarray(pos), np.asarray(lp)]
        if v[1] == "target":  # the target replaced between calls
            o, _, l, d = v
            old, strat.logpdf = strat.logpdf, LogPDF(LP[l], n_dims=2)
            _, _, pos = strat(key, {}, start(2), DATA[d])
            strat.logpdf = old
            return [np.asarray(pos)]
        o, d, c = v[:3]
        big = v[3] if len(v) > 3 else (o + d + c) % 2
        C = (3, 2)[c]
        _, _, pos = strat(key, {}, start(C) * (1, 2)[big], DATA3[d])
        return [np.asarray(pos)]

    own = [(0, dict(n_steps=7)), (0, dict(noise_level=0.0, bounds=objs[1]["bounds"]))], [(0, "optimize", 0, 0), (0, "optimize", 1, 0), (1, "optimize", 1, 1), (0, "target", 1, 0), (1, "target", 0, 1)]
    return make, call, lambda th: own[own_calls] + (list(itertools.product(range(2), range(3), range(2), range(2))) if th else [(o, d, c) for o in (0, 1) for d, c in ((0, 0), (2, 1), (1, 1)) if d or not own_calls])


def train_family():
    m0 = MaskedCouplingRQSpline(2, 1, [2], 2, jax.random.PRNGKey(0))
    models = [m0, stubs.bend(m0), RealNVP(2, 1, 2, jax.random.PRNGKey(1))]
    lrs = [1e-2, 0.3]
    opts = [[Optimizer(m, learning_rate=lr) for lr in lrs] for m in models]
    fresh = [[o.optim_state for o in r] for r in opts]

    def make(o):
        return TrainModel("m", "b", "o", "loss", n_epochs=(1, 2)[o], batch_size=(4, 3)[o], n_max_examples=6, history_window=(2, 3)[o])

    def call(strat, v, key):
        if isinstance(v[1], dict):
            with having(strat, **v[1]):
                return call(strat, (v[0], 0, 0, 0), key)
        o, m, lr, h = v
        b = Buffer("b", (2, 4, 2), 1)
        b.update_buffer(start(6).reshape(2, 3, 2) * (1, 4)[h])
        opts[m][lr].optim_state = fresh[m][lr]
        res = {"m": models[m], "b": b, "o": opts[m][lr], "loss": Buffer("loss", (2,), 0)}
        _, res, pos = strat(key, res, start(2), {})
        return leaves(res["m"]) + leaves(res["o"].optim_state) + [np.asarray(res["loss"].data)]

    own = [(0, dict(n_epochs=2)), (1, dict(batch_size=2, n_max_examples=4)), (1, dict(history_window=1, n_epochs=1))]
    return make, call, lambda th: own + [v for v in itertools.product(range(2), range(3), range(2), range(2)) if th or v[2] == (v[1] + v[3]) % 2]


def nf_kernels():
    m0 = MaskedCouplingRQSpline(2, 1, [2], 2, jax.random.PRNGKey(0))
    return [NFProposal(m0, n_NFproposal_batch_size=2), NFProposal(stubs.bend(m0), n_NFproposal_batch_size=2)]


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-5, atol=1e-6, equal_nan=True) for x, y in zip(a, b))


def part(build):
    def run(ctx):
        make, call, variants = build()
        variants = variants(ctx.thorough)
        key = jax.random.PRNGKey(11 + ctx.seed)
        quiet = contextlib.redirect_stdout(io.StringIO())
        refs = []
        for v in variants:
            jax.clear_caches()
            with quiet:
                refs.append(call(make(v[0]), v, key))
        # the alternatives really are different calls
        dist = sum(not equal(refs[i], refs[j]) for i in range(len(refs)) for j in range(i))
        ctx.bump("distinct_pairs", dist)
        ctx.bump("pairs", len(refs) * (len(refs) - 1) // 2)
        jax.clear_caches()
        objs = [make(0), make(1)]
        n = len(variants)
        seq = debruijn(n, 3 if ctx.thorough else 2)
        hist = []
        for i in seq:
            v = variants[i]
            with quiet:
                got = mc.guard(ctx, "exception", lambda: call(objs[v[0]], v, key))
            if got is None:
                return
            hist.append(v)
            ctx.check(equal(got, refs[i]), f"call-{v}", f"the call {v} gives another result after the calls {hist[-3:-1]} than on its own", call=v, before=hist[-6:-1], got=got[0], alone=refs[i][0])
        ctx.count(states=n, transitions=len(seq), traces=len(seq))
        ctx.sample({"calls": n, "history": len(seq), "different_results": dist})
    return run


PARTS = {
    "walk": (part(lambda: stepper_family(TakeSerialSteps, [GaussianRandomWalk(0.4), GaussianRandomWalk(1.1)])), {}),
    "mala": (part(lambda: stepper_family(TakeSerialSteps, [MALA(0.3), MALA(0.9)])), {}),
    "hmc": (part(lambda: stepper_family(TakeSerialSteps, [HMC(jnp.eye(2), 0.2, 2), HMC(2.0 * jnp.eye(2), 0.5, 2)])), {}),
    "flow": (part(lambda: stepper_family(TakeGroupSteps, nf_kernels())), {}),
    "tempering": (part(lambda: pt_family([GaussianRandomWalk(0.4), GaussianRandomWalk(1.1)])), {}),
    "adam": (part(lambda: adam_family(0)), {}),
    "adam_own": (part(lambda: adam_family(1)), {}),
    "train": (part(train_family), {}),
}
