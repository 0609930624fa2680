"""Controlled randomness ("tape" PRNG).

A jax PRNG implementation, installed through jax's public extension point
``jax.extend.random.define_prng_impl``, whose keys carry the *choice tape* of the
execution.  key data = [node_id, tape_0 .. tape_{S-1}] (uint32).

* split / fold_in derive a child node id (a hash of the parent id and the child
  index) and copy the tape, so the tree of keys the code under test builds is the
  tree of node ids;
* random_bits looks the node id up in a table found by a *discovery run* and
  returns the tape words of that draw.

Every random decision of the unmodified code is therefore a function of the tape,
and enumerating tapes enumerates all outcomes of all draws (on the chosen grid).
The table is obtained from the code itself, so renaming, re-splitting or
re-ordering keys does not matter.
"""

import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
from jax.extend.random import define_prng_impl

ROOT = 7
_CNT = itertools.count()


def mix(a, b):
    a = jnp.asarray(a, jnp.uint32)
    b = jnp.asarray(b, jnp.uint32)
    h = a ^ (b + jnp.uint32(0x9E3779B9) + (a << 6) + (a >> 2))
    h = h * jnp.uint32(0x85EBCA6B)
    h ^= h >> 13
    h = h * jnp.uint32(0xC2B2AE35)
    h ^= h >> 16
    h = h * jnp.uint32(0x27D4EB2F)
    h ^= h >> 15
    return h


class Tape:
    """Slot table: slots = ordered list of (node_id, n_words)."""

    def __init__(self, slots=(), record=None, splits=None):
        self.slots = list(slots)
        self.base = {}
        b = 0
        for i, n in self.slots:
            self.base[i] = b
            b += n
        self.S = b
        self.record = record
        self.splits = splits
        self.impl = self._make()

    def _make(self):
        S = self.S
        ids = np.array([i for i, _ in self.slots], np.uint32)
        bases = np.array([self.base[i] for i, _ in self.slots], np.int32)
        record, splits = self.record, self.splits

        def seed(s):
            return jnp.concatenate(
                [jnp.array([1], jnp.uint32) + s.astype(jnp.uint32), jnp.zeros(S, jnp.uint32)]
            )

        def split(key, shape):
            n = int(np.prod(shape))
            if splits is not None:
                jax.debug.callback(lambda i: splits.append(int(i)), key[0])
            ch = mix(key[0], jnp.arange(1, n + 1, dtype=jnp.uint32))
            out = jnp.concatenate(
                [ch[:, None], jnp.broadcast_to(key[1:], (n, S))], axis=1
            )
            return out.reshape(*shape, 1 + S)

        def fold_in(key, d):
            return key.at[0].set(mix(key[0], d.astype(jnp.uint32) + jnp.uint32(1000003)))

        def random_bits(key, width, shape):
            n = int(np.prod(shape))
            if record is not None and n > 0:
                jax.debug.callback(lambda i: record.append((int(i), n)), key[0])
            dt = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32, 64: jnp.uint64}[width]
            v = mix(key[0], jnp.arange(n, dtype=jnp.uint32))
            if S:
                hit = jnp.asarray(ids) == key[0]
                base = jnp.sum(jnp.where(hit, jnp.asarray(bases), 0))
                t = jax.lax.dynamic_slice(
                    jnp.concatenate([key[1:], jnp.zeros(n, jnp.uint32)]), (base,), (n,)
                )
                v = jnp.where(hit.any(), t, v)
            if width == 64:
                v = v.astype(jnp.uint64) << 32
            elif width < 32:
                v = v >> (32 - width)
            return v.astype(dt).reshape(shape)

        return define_prng_impl(
            key_shape=(1 + S,),
            seed=seed,
            split=split,
            random_bits=random_bits,
            fold_in=fold_in,
            name=f"tape{next(_CNT)}",
            tag="tp",
        )

    def key(self, tape=None, root=ROOT):
        """One typed key carrying `tape` (length S)."""
        return self.keys(np.zeros((1, self.S), np.uint32) if tape is None else np.asarray(tape)[None], root)[0]

    def keys(self, tapes, root=ROOT):
        """A batch of typed keys, one per row of `tapes`."""
        tapes = np.asarray(tapes, np.uint32).reshape(-1, self.S) if self.S else np.zeros((len(tapes), 0), np.uint32)
        kd = np.concatenate([np.full((len(tapes), 1), root, np.uint32), tapes], 1)
        return jax.random.wrap_key_data(jnp.asarray(kd), impl=self.impl)


def key_id(key):
    """Node id of a tape key."""
    return int(np.asarray(jax.random.key_data(key)).reshape(-1)[0])


def discover(run, root=ROOT):
    """Run `run(key)` once with a recording key; return (Tape, raw record).

    Slots are ordered by first use; a node id drawn from more than once with
    different sizes gets the largest size.
    """
    rec = []
    t = Tape(record=rec)
    out = run(t.key(root=root))
    jax.block_until_ready([x for x in jax.tree_util.tree_leaves(out) if hasattr(x, "block_until_ready")])
    jax.effects_barrier()
    sizes = {}
    for i, n in rec:
        sizes[i] = max(n, sizes.get(i, 0))
    return Tape(slots=list(sizes.items())), rec


# ---- alphabets for draws --------------------------------------------------

def quantiles(M):
    """bits at the M mid-quantiles: every one has probability 1/M."""
    return (((np.arange(M) + 0.5) / M) * 2.0**32).astype(np.uint64).astype(np.uint32)


BITS0 = np.uint32(0)  # uniform() returns exactly 0.0
BITSMAX = np.uint32(2**32 - 1)  # uniform() returns its largest value < 1


def product_grid(axes):
    """All combinations of per-slot alphabets, as an (N, S) uint32 array."""
    if not axes:
        return np.zeros((1, 0), np.uint32)
    g = np.meshgrid(*[np.asarray(a, np.uint32) for a in axes], indexing="ij")
    return np.stack([x.reshape(-1) for x in g], 1)


def z_to_bits(z):
    """Bits whose standard-normal draw is z (up to 2^-32 resolution)."""
    from scipy.special import ndtr

    u = ndtr(np.asarray(z, np.float64))
    return np.clip(np.floor(u * 2.0**32), 0, 2**32 - 1).astype(np.uint64).astype(np.uint32)


def bits_to_z(b):
    from scipy.special import ndtri

    return ndtri((np.asarray(b, np.float64) + 0.5) / 2.0**32)
