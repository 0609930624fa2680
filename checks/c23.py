"""C23: saved resources load back equal."""
import contextlib
import io
import itertools
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import fmlib
import mc
import stubs
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.common import Gaussian
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.states import State

LEVEL = "model_checking"
BOUNDS = ("breadth first over every sequence of save, update and load of two buffers, two states, a mixture, and two models saved under two paths, up to depth 4-5, against a "
          "reference store; plus one round trip of every buffer shape, content, cursor and cursor dimension, every state content up to three entries, and every model kind "
          "in fresh, bent and trained states; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["names are file-name stems (no '/', not ending in '.npz')", "models are loaded into a model built with the same architecture"]

quiet = lambda: contextlib.redirect_stdout(io.StringIO())


def bits(a):
    a = np.asarray(a)
    return (a.shape, str(a.dtype), a.tobytes())


def buf_snap(b):
    return (b.name, bits(b.data), bits(b()), tuple(b.shape), int(b.cursor), int(b.cursor_dim))


def st_snap(s):
    return (s.name, tuple((k, type(v).__name__, v) for k, v in s.data.items()))


def buffers_one(ctx):
    """Every shape, content, cursor: one round trip."""
    shapes = [(3,), (1,), (2, 3), (3, 1), (2, 3, 2), (1, 4, 1), (2, 2, 2, 2), (0,), (2, 0)]
    with tempfile.TemporaryDirectory() as tmp:
        for shape in shapes:
            n = int(np.prod(shape))
            contents = {
                "fresh": None,
                "ramp": np.arange(n, dtype=np.float32).reshape(shape),
                "special": np.resize(np.array([np.nan, np.inf, -np.inf, -0.0, 1e-45, 3.4e38], np.float32), shape),
                "int": np.arange(n, dtype=np.int32).reshape(shape) - 2,
                "bool": (np.arange(n) % 2 == 0).reshape(shape),
                "double": np.linspace(0, 1, n).reshape(shape),
                "transposed": np.asfortranarray(np.arange(n, dtype=np.float32).reshape(shape)),
            }
            for cn, c in contents.items():
                for dim in range(-1, len(shape)):
                    for cursor in (0, 1, 7):
                        for name in ("a", "loss buffer", "β.1", "x-1_2") if cn == "ramp" else ("a",):
                            b = Buffer(name, shape, dim)
                            if c is not None:
                                b.data = jnp.asarray(c)
                            b.cursor = cursor
                            k = f"buffer-{shape}-{cn}"
                            before = buf_snap(b)
                            path = tmp + "/r_"

                            def go():
                                b.save_resource(path)
                                return Buffer("other", (1,), 0).load_resource(path + name + ".npz")

                            l = mc.guard(ctx, k + ":exception", go)
                            if l is None:
                                continue
                            ctx.check(buf_snap(b) == before, k + ":saved", "saving changes the buffer")
                            ctx.check(buf_snap(l) == before, k, f"buffer loads as {l.name!r} {l.shape} cursor {l.cursor} dim {l.cursor_dim}, was {b.name!r} {b.shape} cursor {b.cursor} dim {b.cursor_dim}", data=b.data, loaded=l.data)
                            ctx.check(isinstance(l.data, jax.Array), k + ":type", "the loaded data is not a jax array")
                            ctx.count(states=1, transitions=2, traces=1)
        ctx.sample({"shapes": shapes})


def states_one(ctx):
    vals = [True, False, 0, 1, -3, 2**40, "", "positions_training", "é", "True"]
    keys = ["a", "target_positions", "", "training"]
    with tempfile.TemporaryDirectory() as tmp:
        for size in range(0, 4 if ctx.thorough else 3):
            for ks in itertools.permutations(keys, size):
                for vs in itertools.product(vals, repeat=size):
                    s = State(dict(zip(ks, vs)), "s")
                    before = st_snap(s)
                    s.save_resource(tmp + "/")
                    l = mc.guard(ctx, "state:exception", State({"other": 1}, "o").load_resource, tmp + "/s.npz")
                    if l is None:
                        return
                    ctx.check(st_snap(s) == before, "state:saved", f"saving changes the state {before}")
                    ctx.check(st_snap(l) == before, "state", f"state {before} loads as {st_snap(l)}")
                    ctx.count(states=1, transitions=2, traces=1)
        for name in ("State", "sampler state", "β"):
            s = State({"x": 1}, name)
            s.save_resource(tmp + "/p_")
            l = mc.guard(ctx, "state-name:exception", s.load_resource, tmp + "/p_" + name + ".npz")
            if l is not None:
                ctx.check(l.name == name and l.data == {"x": 1}, "state-name", f"state named {name!r} loads as {l.name!r}")
    ctx.sample({"values": vals})


class BufferKind:
    snap = staticmethod(buf_snap)

    @staticmethod
    def make(name, i):
        return Buffer(name, (2, 3) if i == 0 else (3, 2, 1), 1 if i == 0 else 0)

    @staticmethod
    def update(b, n):
        with quiet():
            one = np.ones([1 if j == b.cursor_dim else x for j, x in enumerate(b.shape)], np.float32)
            b.update_buffer(jnp.asarray(one * (n + 1)), b.cursor % b.shape[b.cursor_dim])
            b.cursor += 1

    @staticmethod
    def blank():
        return Buffer("blank", (1,), 0)


class StateKind:
    snap = staticmethod(st_snap)

    @staticmethod
    def make(name, i):
        return State({"t": True, "p": "training"} if i == 0 else {"n": 1}, name)

    @staticmethod
    def update(s, n):
        with quiet():
            s.update(["t", f"k{n % 2}"], [n % 2 == 0, n if n % 3 else f"v{n}"])

    @staticmethod
    def blank():
        return State({}, "blank")


def store(kinds, names, depth):
    """Every sequence of save/update/load on two named resources in one directory."""
    def part(ctx):
        d = depth + 1 if ctx.thorough else depth
        ops = [(o, i) for i in range(2) for o in ("save", "update", "load")]
        with tempfile.TemporaryDirectory() as tmp:
            for q, seq in enumerate(itertools.product(ops, repeat=d)):
                base = f"{tmp}/{q}_"
                live = [k.make(n, i) for i, (k, n) in enumerate(zip(kinds, names))]
                want = [k.snap(x) for k, x in zip(kinds, live)]
                disk = [None, None]
                bad = False
                for t, (o, i) in enumerate(seq):
                    k = kinds[i]
                    if o == "load" and disk[i] is None:
                        bad = True
                        break
                    if o == "save":
                        mc.guard(ctx, "store:exception", live[i].save_resource, base)
                        disk[i] = want[i]
                    elif o == "update":
                        k.update(live[i], t)
                        want[i] = k.snap(live[i])
                    else:
                        l = mc.guard(ctx, "store:exception", k.blank().load_resource, base + names[i] + ".npz")
                        if l is None:
                            return
                        live[i] = l
                        want[i] = disk[i]
                    for j in range(2):
                        got = kinds[j].snap(live[j])
                        ctx.check(got == want[j], "store:" + o, f"after {seq[: t + 1]} resource {names[j]!r} is {got}, must be {want[j]}")
                    ctx.count(transitions=1)
                for f in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, f))
                if not bad:
                    ctx.count(states=d, traces=1)
        ctx.sample({"names": names, "depth": d, "sequences": len(ops) ** d})
    return part


# ---- models -----------------------------------------------------------------------

def builders(d):
    g = lambda s: Gaussian(jnp.full(d, 0.1 * s), jnp.eye(d) * (1 + s), learnable=s == 2)
    return {
        "rq": lambda s: MaskedCouplingRQSpline(d, 2, [4], 4, jax.random.PRNGKey(s), data_mean=jnp.full(d, 1.0 * s), data_cov=jnp.eye(d) * (1 + s)),
        "rq-base": lambda s: MaskedCouplingRQSpline(d, 1, [4], 4, jax.random.PRNGKey(s), base_dist=g(0 if s == 0 else 2) if s != 2 else g(2)),
        "nvp": lambda s: RealNVP(d, 2, 4, jax.random.PRNGKey(s), data_mean=jnp.full(d, 1.0 * s), data_cov=jnp.eye(d) * (1 + s)),
        "fm": lambda s: fmlib.model(d, (4,), seed=s, mean=jnp.full(d, 1.0 * s), cov=jnp.eye(d) * (1 + s)),
    }


@eqx.filter_jit
def _run(m, X, key):
    out = [jax.vmap(m.log_prob)(X), m.sample(key, 3), m.data_mean, m.data_cov]
    if hasattr(m, "forward"):
        out += [jax.vmap(m.forward)(X), jax.vmap(m.inverse)(X)]
    return out


def behaviour(m, d):
    X = jnp.linspace(-2.0, 2.0, 5 * d).reshape(5, d)
    arrays = [bits(a) for a in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_array))]
    return [bits(a) for a in jax.tree_util.tree_leaves(_run(m, X, jax.random.PRNGKey(4)))], arrays


def train(m, d, key=0, epochs=1):
    rng = np.random.default_rng(key)
    x = jnp.asarray(rng.normal(size=(8, d)) * 2 + 5, jnp.zeros(()).dtype)
    o = Optimizer(m, learning_rate=0.05)
    data = x
    if not hasattr(m, "forward"):
        data = (jnp.asarray(rng.normal(size=(8, d)), x.dtype), x, jnp.asarray(np.linspace(0, 1, 8)[:, None], x.dtype))
    with quiet():
        return m.train(jax.random.PRNGKey(key), data, o.optim, o.optim_state, epochs, 4, verbose=False)[1]


def models_one(kind):
    def part(ctx):
        for d in (1, 2) if not ctx.thorough else (1, 2, 3):
            mk = builders(d)[kind]
            with tempfile.TemporaryDirectory() as tmp:
                for stage in ("fresh", "bent", "trained"):
                    m = mk(2)
                    if stage == "bent":
                        m = stubs.bend(m)
                    elif stage == "trained":
                        m = train(m, d, epochs=2)
                    before = behaviour(m, d)
                    k = f"model-{kind}-{d}d-{stage}"
                    tmpl = mk(1)
                    tb = behaviour(tmpl, d)
                    for save, load in (("save_model", "load_model"), ("save_resource", "load_resource")):
                        p = f"{tmp}/{stage}"

                        def go():
                            getattr(m, save)(p)
                            return getattr(tmpl, load)(p)

                        l = mc.guard(ctx, k + ":exception", go)
                        if l is None:
                            continue
                        ctx.check(behaviour(m, d) == before, k + ":saved", "saving changes the model")
                        ctx.check(behaviour(tmpl, d) == tb, k + ":template", "loading changes the model it is loaded into")
                        ctx.check(type(l) is type(m) and l.n_features == m.n_features, k + ":kind", "the loaded model is of another kind")
                        got = behaviour(l, d)
                        ctx.check(got[0] == before[0], k, "the loaded model gives different log-probabilities, samples or maps")
                        ctx.check(got[1] == before[1], k + ":parameters", "the loaded model has different parameters or types")
                        if stage == "trained" and save == "save_model" and got[1] == before[1]:
                            a, b = train(m, d, 3), train(l, d, 3)
                            ctx.check(behaviour(a, d) == behaviour(b, d), k + ":train-on", "training the loaded model gives another model than training the saved one")
                        ctx.count(states=1, transitions=2, traces=1)
        ctx.sample({"model": kind, "dims": d})
    return part


def models_store(kind):
    """Two models, two paths, every sequence of bend / save to p or q / load from p or q."""
    def part(ctx):
        d, depth = 2, 4 if not ctx.thorough else 5
        mk = builders(d)[kind]
        ops = ["bend0", "bend1"] + [f"{o}{i}{p}" for o in ("save", "load") for i in (0, 1) for p in "pq"]
        snap = lambda m: tuple(bits(a) for a in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_array)))
        bent = {}

        def bend(m, s):
            if s not in bent:
                bent[s] = stubs.bend(m, 0.1)
            return bent[s]

        start = [mk(0), mk(2)]
        s0 = [snap(m) for m in start]
        with tempfile.TemporaryDirectory() as tmp:
            seen = {}
            # breadth first over (live models, disk content): every reachable abstract state once
            front = [(tuple(start), tuple(s0), (None, None), ())]
            seen[(tuple(s0), (None, None))] = ()
            paths = {"p": tmp + "/p", "q": tmp + "/q.v1"}
            files = {}
            for level in range(depth):
                nxt = []
                for live, want, disk, h in front:
                    for op in ops:
                        i = int(op[4])
                        if op.startswith("load") and disk["pq".index(op[5])] is None:
                            continue
                        # put the disk into this state
                        for c, p in enumerate("pq"):
                            f = paths[p] + ".eqx"
                            if disk[c] is None:
                                if os.path.exists(f):
                                    os.unlink(f)
                            else:
                                with open(f, "wb") as w:
                                    w.write(files[(p, disk[c])])
                        lv, wt, dk = list(live), list(want), list(disk)
                        if op.startswith("bend"):
                            lv[i] = bend(lv[i], wt[i])
                            wt[i] = snap(lv[i])
                        elif op.startswith("save"):
                            p = op[5]
                            if mc.guard(ctx, "models:exception", lambda: lv[i].save_model(paths[p]) or True) is None:
                                return
                            dk["pq".index(p)] = wt[i]
                            for c, q in enumerate("pq"):
                                f = paths[q] + ".eqx"
                                now = open(f, "rb").read() if os.path.exists(f) else None
                                if q == p:
                                    if not ctx.check(now is not None, "models:file", f"saving to {paths[p]!r} writes no file {f!r}"):
                                        return
                                    files[(p, wt[i])] = now
                                else:
                                    ctx.check(now == (files[(q, disk[c])] if disk[c] is not None else None), "models:other", "saving one model changes the file of the other")
                        else:
                            p = op[5]
                            l = mc.guard(ctx, "models:exception", lv[i].load_model, paths[p])
                            if l is None:
                                return
                            wt[i] = dk["pq".index(p)]
                            lv[i] = l
                        for j in range(2):
                            ctx.check(snap(lv[j]) == wt[j], "models:" + op[:4], f"after {h + (op,)} model {j} does not have the parameters it must have")
                        ctx.count(transitions=1)
                        key = (tuple(wt), tuple(dk))
                        if key not in seen:
                            seen[key] = h + (op,)
                            nxt.append((tuple(lv), tuple(wt), tuple(dk), h + (op,)))
                front = nxt
            ctx.count(states=len(seen), traces=len(seen))
        ctx.sample({"model": kind, "depth": depth, "reachable states": len(seen)})
    return part


def large(ctx):
    """Large buffers and states, long names, wide and deep models"""
    with tempfile.TemporaryDirectory() as tmp:
        path = tmp + "/r_"
        for shape, dim in (((1000, 50, 10), 1), ((70000,), 0), ((2, 3, 2, 3, 2, 2), 4), ((300, 1, 300), 2), ((1, 100000), 1)):
            for kind in (np.float32, np.int32, np.uint8, np.float16):
                b = Buffer("x" * 150, shape, dim)
                n = int(np.prod(shape))
                b.data = jnp.asarray((np.arange(n) % 251).astype(kind).reshape(shape))
                b.cursor = 123456
                before = buf_snap(b)

                def go():
                    b.save_resource(path)
                    return Buffer("other", (1,), 0).load_resource(path + b.name + ".npz")

                l = mc.guard(ctx, f"large-{shape}:exception", go)
                if l is not None:
                    ctx.check(buf_snap(l) == before and buf_snap(b) == before, f"large-{shape}", f"a buffer of shape {shape} and type {kind.__name__} loads as {l.name[:9]!r}.. {l.shape} {l.data.dtype} cursor {l.cursor} dim {l.cursor_dim}")
                ctx.count(states=1, transitions=2, traces=1)
        s = State({f"key number {i}": (i % 2 == 0, 10**15 + i, "v" * i)[i % 3] for i in range(400)}, "s" * 150)
        before = st_snap(s)
        s.save_resource(path)
        l = mc.guard(ctx, "large-state:exception", State({}, "o").load_resource, path + s.name + ".npz")
        if l is not None:
            ctx.check(st_snap(l) == before, "large-state", "a state of 400 entries does not come back as it was")
        d = 8
        mks = {
            "rq": lambda s: MaskedCouplingRQSpline(d, 7, [12, 8, 5], 9, jax.random.PRNGKey(s), data_mean=jnp.full(d, 1.0 * s), data_cov=jnp.eye(d) * (1 + s)),
            "nvp": lambda s: RealNVP(d, 11, 70, jax.random.PRNGKey(s), data_mean=jnp.full(d, 1.0 * s), data_cov=jnp.eye(d) * (1 + s)),
            "fm": lambda s: fmlib.model(d, (33, 17), seed=s, mean=jnp.full(d, 1.0 * s), cov=jnp.eye(d) * (1 + s)),
        }
        for k, mk in mks.items():
            m, t = stubs.bend(mk(2), 0.02), mk(1)
            before = behaviour(m, d)
            p = f"{tmp}/{'m' * 150}{k}"

            def go():
                m.save_model(p)
                return t.load_model(p)

            l = mc.guard(ctx, f"large-{k}:exception", go)
            if l is not None:
                ctx.check(behaviour(l, d) == before, f"large-{k}", "the loaded model is not the one saved")
            ctx.count(states=1, transitions=2, traces=1)
    ctx.sample({"last": k})


PARTS = {
    "large": (large, {}),
    "buffers": (buffers_one, {}),
    "buffers64": (buffers_one, {"x64": True}),
    "states": (states_one, {}),
    "store_bb": (store((BufferKind, BufferKind), ("a", "ab"), 5), {}),
    "store_ss": (store((StateKind, StateKind), ("s", "S"), 5), {}),
    "store_bs": (store((BufferKind, StateKind), ("r", "r1"), 5), {}),
}
PARTS.update({"one_" + k: (models_one(k), {}) for k in ("rq", "rq-base", "nvp", "fm")})
PARTS.update({"disk_" + k: (models_store(k), {}) for k in ("rq", "nvp", "fm")})
PARTS["one64_nvp"] = (models_one("nvp"), {"x64": True})
