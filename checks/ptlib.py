"""Shared by C12-C15: one real ParallelTempering call as a pure function."""
import jax
import jax.numpy as jnp
import numpy as np

import stubs
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.base import ProposalBase
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.states import State
from flowMC.strategy.parallel_tempering import ParallelTempering


class Plain(ProposalBase):
    def __init__(self):
        pass

    def print_parameters(self):
        pass

    def save_resource(self, path):
        raise NotImplementedError

    def load_resource(self, path):
        raise NotImplementedError


class Identity(Plain):
    def kernel(self, rng_key, position, log_prob, logpdf, data):
        return position, log_prob, jnp.ones((), int)


class Flip(Plain):
    """Metropolis on states {0,1} (coordinate 0): always proposes the other state."""

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        new = position.at[0].set(1.0 - position[0])
        lp = logpdf(new, data)
        acc = jnp.log(jax.random.uniform(rng_key)) < lp - log_prob
        return jnp.where(acc, new, position), jnp.where(acc, lp, log_prob), acc.astype(int)


class Cycle(Plain):
    """Metropolis on states {0,..,K-1} (coordinate 0): proposes +-1 around the cycle."""

    K: int

    def __init__(self, K):
        self.K = K

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        a, b = jax.random.split(rng_key)
        s = jnp.where(jax.random.uniform(a) < 0.5, 1.0, self.K - 1.0)
        new = position.at[0].set(jnp.mod(position[0] + s, self.K))
        lp = logpdf(new, data)
        acc = jnp.log(jax.random.uniform(b)) < lp - log_prob
        return jnp.where(acc, new, position), jnp.where(acc, lp, log_prob), acc.astype(int)


def resources(kernel, ll, prior, walkers, temps, training):
    """walkers (C, nt, d)"""
    C, nt, d = walkers.shape
    r = {
        "pdf": TemperedPDF(ll, prior, n_dims=d), "kernel": kernel,
        "tp": Buffer("tp", (C, nt - 1, d), 1), "temps": Buffer("temps", (nt,), 0), "state": State({"training": training}, "state"),
    }
    r["tp"].data = jnp.asarray(walkers)[:, 1:]
    r["temps"].data = jnp.asarray(temps)
    return r


def strategy(n_steps):
    return ParallelTempering(n_steps, "pdf", "kernel", ["tp", "temps"], "state")


def call(kernel, ll, prior, n_steps, training, data):
    """key, walkers, temps -> walkers after, temps after, next key"""

    def f(key, walkers, temps):
        r = resources(kernel, ll, prior, walkers, temps, training)
        key, r, pos = strategy(n_steps)(key, r, jnp.asarray(walkers)[:, 0], data)
        return jnp.concatenate([pos[:, None], r["tp"].data], 1), r["temps"].data, key

    return f
