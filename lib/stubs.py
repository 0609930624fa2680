"""Small, fully understood components handed to the real flowMC code."""
import contextlib
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax

from flowMC.resource.kernel.base import ProposalBase
from flowMC.resource.model.nf_model.base import NFModel


class LatticeFlow(NFModel):
    """A flow on {0..K-1}^1 x copies: exact law q, sampled from one uniform per point."""

    q: jax.Array
    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array

    def __init__(self, q, n_features=1):
        self.q = jnp.asarray(q, float)
        self._n_features = n_features
        self._data_mean = jnp.zeros(n_features)
        self._data_cov = jnp.eye(n_features)

    def sample(self, rng_key, n_samples):
        u = jax.random.uniform(rng_key, (n_samples,))
        edges = jnp.cumsum(self.q)[:-1]
        idx = jnp.sum(u[:, None] >= edges[None, :], axis=1).astype(float)
        return jnp.repeat(idx[:, None], self._n_features, axis=1)

    def log_prob(self, x):
        return jnp.log(self.q)[jnp.round(x[..., 0]).astype(int)]

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


def flag_of(k):
    """An aperiodic bit of an integer below 50000 (multiples of the golden ratio)."""
    return (k * 40503) % 65536 // 32768


class CounterKernel(ProposalBase):
    """Deterministic kernel: position += 1; the log-prob output is the step's own label
    (position[0] + 0.5) and the flag is an aperiodic bit of the new position."""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        p = position + 1.0
        return p, p[0] + 0.5, flag_of(jnp.round(p[0]).astype(int))

    def print_parameters(self):
        pass

    def save_resource(self, path):
        raise NotImplementedError

    def load_resource(self, path):
        raise NotImplementedError


class GroupCounterKernel(CounterKernel):
    def kernel(self, rng_key, position, log_prob, logpdf, data):
        n = data["n_steps"]
        p = position[None, :] + 1.0 + jnp.arange(n)[:, None]
        return p, p[:, 0] + 0.5, flag_of(jnp.round(p[:, 0]).astype(int))


def bend(model, amount=0.35, phase=0.0):
    """A deterministic non-trivial parameter state: only MLP weights and scalar affine
    parameters move (what the optimizer trains), nothing else."""
    from flowMC.resource.model.common import MLP, ScalarAffine

    n = [0]

    def leaf(l):
        if eqx.is_inexact_array(l):
            n[0] += 1
            idx = jnp.arange(l.size).reshape(l.shape)
            return l + amount * jnp.sin(1.7 * idx + n[0] + phase)
        return l

    def node(x):
        if isinstance(x, (MLP, ScalarAffine)):
            return jax.tree_util.tree_map(leaf, x)
        return x

    return jax.tree_util.tree_map(node, model, is_leaf=lambda x: isinstance(x, (MLP, ScalarAffine)))


def step_resources(kernel, logpdf, n_chains, n_dim, capacity, names=("p", "l", "a")):
    """Fresh resources for TakeSerialSteps/TakeGroupSteps."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State

    return {
        "P": Buffer("P", (n_chains, capacity, n_dim), 1),
        "L": Buffer("L", (n_chains, capacity), 1),
        "A": Buffer("A", (n_chains, capacity), 1),
        "kernel": kernel,
        "logpdf": logpdf,
        "state": State({"p": "P", "l": "L", "a": "A"}, "state"),
    }


LOG = []


class RecModel(NFModel):
    """A model whose training steps only record what they were given.

    `w` counts the steps taken, so different parameter states are distinguishable."""

    w: jax.Array
    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array

    def __init__(self, n_features):
        self.w = jnp.zeros(())
        self._n_features = n_features
        self._data_mean = jnp.zeros(n_features)
        self._data_cov = jnp.eye(n_features)

    def train_step(self, x, optim, state):
        LOG.append(np.asarray(x))
        return jnp.asarray(1.0), eqx.tree_at(lambda m: m.w, self, self.w + 1), state

    def log_prob(self, x):
        return -jnp.sum((x - self.w) ** 2)

    def sample(self, rng_key, n_samples):
        return jax.random.uniform(rng_key, (n_samples, self._n_features))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


class DrawKernel(ProposalBase):
    """Position = shift register of draws (coordinate 0 is a tag that never changes);
    the log-prob output is a second, separate draw."""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        a, b = jax.random.split(rng_key)
        u = jax.random.uniform(a)
        return jnp.concatenate([position[:1], position[2:], u[None]]), jax.random.uniform(b), jnp.ones((), int)

    def print_parameters(self):
        pass

    def save_resource(self, path):
        raise NotImplementedError

    def load_resource(self, path):
        raise NotImplementedError


class UniformFlow(NFModel):
    """Flow whose samples are raw uniform draws."""

    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array

    def __init__(self, n_features):
        self._n_features = n_features
        self._data_mean = jnp.zeros(n_features)
        self._data_cov = jnp.eye(n_features)

    def sample(self, rng_key, n_samples):
        return jax.random.uniform(rng_key, (n_samples, self._n_features))

    def log_prob(self, x):
        return jnp.zeros(())

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


# ---- training stubs: everything is observed through the optimizer -----------

class HistModel(NFModel):
    """Its gradient is the histogram of the batch; loss = -(number of updates so far)."""

    w: jax.Array
    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array
    code_dim: int

    def __init__(self, n_features, n_codes, code_dim=0):
        self.w = jnp.zeros(n_codes)
        self._n_features = n_features
        self._data_mean = jnp.zeros(n_features)
        self._data_cov = jnp.eye(n_features)
        self.code_dim = code_dim

    def log_prob(self, x):
        one = (jnp.arange(self.w.shape[0]) == jnp.round(x[self.code_dim]).astype(int)).astype(float)
        return -(self.w @ one) + 2.0 * jnp.mean(self.w)

    def sample(self, rng_key, n_samples):
        return jax.random.uniform(rng_key, (n_samples, self._n_features))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


def rec_optim(n_codes, max_steps=64):
    """optax transformation: adds 1 to w, records the batch histogram it can read off the gradient."""

    def init(params=None):
        return {"n": jnp.zeros((), jnp.int32), "log": jnp.zeros((max_steps, n_codes))}

    def update(grads, state, params=None):
        log = jax.lax.dynamic_update_slice_in_dim(state["log"], (grads.w + 2.0 / n_codes)[None], state["n"], 0)
        up = jax.tree_util.tree_map(jnp.zeros_like, grads)
        up = eqx.tree_at(lambda m: m.w, up, jnp.ones_like(grads.w))
        return up, {"n": state["n"] + 1, "log": log}

    return optax.GradientTransformation(init, update)


def batches(state, batch_size=None):
    """Recorded histograms as a list of {code: count} per step (fractions if no batch size)."""
    out = []
    for row in np.asarray(state["log"])[: int(state["n"])]:
        row = row * batch_size if batch_size else row
        out.append({int(i): round(float(v), 3) for i, v in enumerate(row) if abs(v) > 1e-4})
    return out


def spy_local(self, rng_key, position, log_prob, logpdf, data):
    """x0 += 1; x1 = -1; further coordinates: target value at a probe point."""
    p = position.at[0].add(1.0).at[1].set(-1.0)
    if position.shape[0] > 2:
        p = p.at[2].set(logpdf(jnp.full(position.shape, 0.5), data))
    return p, p[0] + 0.25, jnp.ones((), int)


def spy_global(self, rng_key, position, log_prob, logpdf, data):
    """x0 += 1 per step; x1 = number of updates the flow in use has seen."""
    n = data["n_steps"]
    p = jnp.repeat(position[None], n, 0)
    p = p.at[:, 0].add(1.0 + jnp.arange(n)).at[:, 1].set(jnp.mean(self.model.w))
    if position.shape[0] > 2:
        p = p.at[:, 2].set(logpdf(jnp.full(position.shape, 0.5), data))
    return p, p[:, 0] + 0.75, jnp.zeros((n,), int)


@contextlib.contextmanager
def spy_kernels(local=spy_local, glob=spy_global):
    """MALA and the flow proposal count instead of sampling (the bundle may rebuild its kernel objects)."""
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.NF_proposal import NFProposal

    old = MALA.__dict__["kernel"], NFProposal.__dict__["kernel"]
    MALA.kernel, NFProposal.kernel = local, glob
    try:
        yield
    finally:
        MALA.kernel, NFProposal.kernel = old
