"""Shared by C19-C22: flow-matching models and what their training hands to the network."""
import contextlib
import io

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax

from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Scheduler, Solver


class Trig(Scheduler):
    """another valid scheduler: quarter circle"""

    def __call__(self, t):
        h = jnp.pi / 2
        return jnp.sin(h * t), h * jnp.cos(h * t), jnp.cos(h * t), -h * jnp.sin(h * t)


def model(n, hidden=(6,), seed=0, mean=None, cov=None, scheduler=None, activation=jax.nn.tanh):
    net = MLP([n + 1, *hidden, n], jax.random.PRNGKey(seed), scale=1e-2, activation=activation)
    return FlowMatchingModel(Solver(net), Path(scheduler or CondOTScheduler()), mean, cov)


def linear(n, mean=None, cov=None, scheduler=None):
    """velocity network = one zero linear layer: its gradient reveals the batch it was given"""
    m = model(n, (), mean=mean, cov=cov, scheduler=scheduler)
    last = lambda q: (q.solver.model.layers[-1].weight, q.solver.model.layers[-1].bias)
    return eqx.tree_at(last, m, tuple(jnp.zeros_like(a) for a in last(m)))


def spy(log):
    """Optimizer with zero updates that records the gradients of the linear layer."""

    def init(params=None):
        return jnp.zeros((), jnp.int32)

    def update(grads, state, params=None):
        g = grads.solver.model.layers[-1]
        jax.debug.callback(lambda a, b: log.append((np.asarray(a), np.asarray(b))), g.weight, g.bias, ordered=True)
        return jax.tree_util.tree_map(jnp.zeros_like, grads), state + 1

    return optax.GradientTransformation(init, update)


def train(m, key, data, optim, state, epochs, batch):
    with contextlib.redirect_stdout(io.StringIO()):
        out = m.train(key, data, optim, state, epochs, batch, verbose=False)
    jax.block_until_ready(out[3])
    jax.effects_barrier()
    return out
