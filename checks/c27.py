"""C27: a buffer holds exactly what was written to it."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import jax
import jax.numpy as jnp
import numpy as np

import mc
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.strategy.update_state import UpdateState

LEVEL = "model_checking"
BOUNDS = ("every buffer shape with 1-3 axes of length 1-3 and every cursor axis: every single write (length, start) that fits, and breadth-first over all sequences of writes to two "
          "buffers to depth 3 (4 thorough); every reached content is compared cell by cell with a numpy store and with what the buffer reports (call, shape, print, histogram); plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["writes fit into the buffer (no caller writes beyond the end, see C06)"]

SHAPES = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n)]


def same(b, ref, name, dim):
    d = np.asarray(b.data)
    return (d.shape == ref.shape and d.dtype == np.float32 and np.array_equal(d, ref) and np.array_equal(np.asarray(b()), ref) and tuple(b.shape) == ref.shape
            and b.name == name and b.cursor_dim == dim)


def writes(shape, dim):
    n = shape[dim]
    return [(k, s) for k in range(1, n + 1) for s in range(n - k + 1)]


def update(shape, dim, k, tag):
    us = list(shape)
    us[dim] = k
    return (100.0 * tag + np.arange(np.prod(us)).reshape(us)).astype(np.float32)


def single(ctx):
    n = 0
    for shape in SHAPES:
        for dim in range(len(shape)):
            b = Buffer("n", shape, dim)
            ref = np.full(shape, -np.inf, np.float32)
            k = f"{shape}-{dim}"
            ctx.check(same(b, ref, "n", dim) and b.cursor == 0, f"fresh-{k}", f"a fresh buffer of shape {shape} holds {np.asarray(b.data).tolist()}, not -inf everywhere")
            if dim == 0:
                ctx.check(same(Buffer("n", shape), ref, "n", 0), f"default-{k}", "the default cursor axis is not 0")
            for i, (ln, st) in enumerate(writes(shape, dim)):
                for how in ("list", "kw", "default"):
                    if how == "default" and st:
                        continue
                    b = Buffer("n", shape, dim)
                    other = Buffer("m", shape, dim)
                    u = update(shape, dim, ln, i + 1)
                    u0 = u.copy()
                    b0 = b.data
                    if how == "kw":
                        b.update_buffer(updates=jnp.asarray(u), start=st)
                    elif how == "default":
                        b.update_buffer(jnp.asarray(u))
                    else:
                        b.update_buffer(jnp.asarray(u), st)
                    r = ref.copy()
                    sl = [slice(None)] * len(shape)
                    sl[dim] = slice(st, st + ln)
                    r[tuple(sl)] = u
                    ctx.check(same(b, r, "n", dim), f"write-{k}-{ln}-{st}", f"writing {ln} entries at {st} along axis {dim} of shape {shape} gives {np.asarray(b.data).tolist()}, must be {r.tolist()}")
                    ctx.check(b.cursor == 0, f"cursor-{k}", "a write moves the cursor, which its owner is to move")
                    ctx.check(same(other, ref, "m", dim) and np.array_equal(np.asarray(b0), ref) and np.array_equal(u, u0), f"alias-{k}", "a write changed another buffer, an array handed out earlier or the update itself")
                    n += 1
            # a completely written buffer: the histogram counts every entry once
            u = update(shape, dim, shape[dim], 1)
            b = Buffer("n", shape, dim)
            b.update_buffer(jnp.asarray(u))
            for bins in (1, 4, 100):
                r = mc.guard(ctx, f"hist-{k}", lambda: b.get_distribution(bins) if bins != 100 else b.get_distribution())
                if r is not None:
                    w = np.histogram(u.flatten(), bins=bins)
                    ctx.check(np.array_equal(r[0], w[0]) and np.allclose(r[1], w[1]), f"hist-{k}", f"histogram of {u.tolist()} is {r}")
            with contextlib.redirect_stdout(io.StringIO()) as out:
                b.print_parameters()
            ctx.check(np.array_equal(np.asarray(b.data), u), f"print-{k}", "printing changed the buffer")
    ctx.count(states=n, transitions=n, traces=n)
    ctx.sample({"shapes": len(SHAPES), "single writes": n})


def sequences(sub):
    def part(ctx):
        depth = 4 if ctx.thorough else 3
        n = 0
        for shape, dim in sub:
            W = writes(shape, dim)
            ops = [(w, ln, st) for w in (0, 1) for ln, st in W]
            seen = set()
            ref0 = [np.full(shape, -np.inf, np.float32)] * 2
            frontier = [((), [np.asarray(r) for r in ref0], [jnp.asarray(r) for r in ref0])]
            for level in range(depth):
                nxt = []
                for hist, refs, datas in frontier:
                    for w, ln, st in ops:
                        bufs = [Buffer(x, shape, dim) for x in "pq"]
                        for b, d in zip(bufs, datas):
                            b.data = d
                        tag = level + 1
                        u = update(shape, dim, ln, tag)
                        bufs[w].update_buffer(jnp.asarray(u), st)
                        r = [x.copy() for x in refs]
                        sl = [slice(None)] * len(shape)
                        sl[dim] = slice(st, st + ln)
                        r[w][tuple(sl)] = u
                        h = hist + ((w, ln, st),)
                        ctx.check(same(bufs[0], r[0], "p", dim) and same(bufs[1], r[1], "q", dim), f"seq-{shape}-{dim}", f"after the writes {h} (buffer, length, start) to shape {shape} along axis {dim} the contents differ from what was written", history=h, got=bufs[w].data, want=r[w])
                        n += 1
                        sig = r[0].tobytes() + r[1].tobytes()
                        if sig not in seen:
                            seen.add(sig)
                            nxt.append((h, r, [b.data for b in bufs]))
                frontier = nxt
            ctx.count(states=len(seen), traces=len(seen))
        ctx.count(transitions=n)
        ctx.sample({"shapes and axes": sub, "depth": depth, "transitions": n})
    return part


def states(ctx):
    """State.update against a dict, every history over keys and values of every allowed type"""
    vals = [True, False, 0, 3, "", "buf"]
    ops = [(k, v) for k in ("a", "b", "new") for v in vals]
    n = 0
    for L in (0, 1, 2) + ((3,) if ctx.thorough else ()):
        for h in itertools.product(ops, repeat=L):
            ref = {"a": 1, "b": "z"}
            s = State({"a": 1, "b": "z"}, "nm")
            o = State({"a": 1, "b": "z"})
            with contextlib.redirect_stdout(io.StringIO()):
                s.update([k for k, _ in h], [v for _, v in h])
                s.print_parameters()
            ref.update(dict(h))
            ok = s.data == ref and all(type(s.data[k]) is type(ref[k]) for k in ref) and s.name == "nm" and o.data == {"a": 1, "b": "z"} and o.name == "State"
            ctx.check(ok, f"state-{len(h)}", f"a state updated with {h} holds {s.data}, must be {ref}")
            n += 1
    ctx.count(states=n, transitions=n, traces=n)
    ctx.sample({"update histories": n})


def strategy(ctx):
    """every sequence of UpdateState calls over two states"""
    ops = [("s", ("a",), (False,)), ("s", ("a", "b"), (2, "p")), ("s", ("b", "a"), ("q", True)), ("t", ("a", "new"), ("a", 0)), ("t", ("a", "a"), (1, 5)), ("t", (), ())]
    n = 0
    for L in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for h in itertools.product(range(len(ops)), repeat=L):
            res = {"s": State({"a": True, "b": "x", "c": 7}, "one"), "t": State({"a": True, "b": "x"}, "two"), "u": Buffer("u", (2, 2), 0)}
            ref = {k: dict(res[k].data) for k in "st"}
            strats = [UpdateState(k, list(a), list(b)) for k, a, b in ops]
            key, pos = jax.random.PRNGKey(3), jnp.arange(4.0).reshape(2, 2)
            data = {"d": 1}
            k1, r1, p1 = key, res, pos
            with contextlib.redirect_stdout(io.StringIO()):
                for i in h:
                    k1, r1, p1 = strats[i](k1, r1, p1, data)
                    for a, v in zip(*ops[i][1:]):
                        ref[ops[i][0]][a] = v
            ok = all(r1[k].data == ref[k] and [type(v) for v in r1[k].data.values()] == [type(v) for v in ref[k].values()] for k in "st")
            ok = ok and np.array_equal(k1, key) and np.array_equal(p1, pos) and set(r1) == set("stu") and np.isneginf(np.asarray(r1["u"].data)).all() and data == {"d": 1} and (r1["s"].name, r1["t"].name) == ("one", "two")
            ctx.check(ok, f"strategy-{h}", f"after the state updates {[ops[i] for i in h]} the states hold {r1['s'].data} and {r1['t'].data}, must be {ref}")
            n += 1
    ctx.count(states=n, transitions=n, traces=n)
    ctx.sample({"strategy call sequences": n})


def large(ctx):
    """Large buffers, many axes, long sequences of block writes; long state histories"""
    n = 0
    for shape, dim in (((40, 1000, 7), 1), ((300, 40), 0), ((2, 3, 2, 70, 2), 3), ((5000,), 0), ((9, 9, 9), 2), ((130, 130), 1)):
        b = Buffer("n", shape, dim)
        ref = np.full(shape, -np.inf, np.float32)
        L = shape[dim]
        pos, tag = 0, 0
        ops = []
        while pos < L:  # fill in uneven blocks
            ln = min(L - pos, 1 + (7 * tag) % max(2, L // 5))
            ops.append((ln, pos))
            pos += ln
            tag += 1
        ops += [(min(L, 2), L - min(L, 2)), (1, 0), (L, 0), (L // 2, L // 3), (1, L - 1)]
        for tag, (ln, st) in enumerate(ops):
            us = list(shape)
            us[dim] = ln
            u = ((np.arange(np.prod(us)).reshape(us) * 13 + 1000 * tag) % 99991).astype(np.float32)
            b.update_buffer(jnp.asarray(u), st)
            sl = [slice(None)] * len(shape)
            sl[dim] = slice(st, st + ln)
            ref[tuple(sl)] = u
            n += 1
            if not ctx.check(same(b, ref, "n", dim) and b.cursor == 0, f"large-{shape}-{dim}", f"after write {tag + 1} of the sequence {ops[: tag + 1][-3:]} a buffer of shape {shape} differs from what was written"):
                break
        ctx.count(states=int(np.prod(shape)), traces=1)
        w = np.histogram(ref.flatten(), bins=37)
        r = mc.guard(ctx, f"large-hist-{shape}", b.get_distribution, 37)
        if r is not None:
            ctx.check(np.array_equal(r[0], w[0]) and np.allclose(r[1], w[1]), f"large-hist-{shape}", f"histogram counts {int(np.sum(r[0]))} entries of {ref.size}")
    s, ref = State({}, "nm"), {}
    for t in range(300):
        ks, vs = [f"k{(t * i) % 41}" for i in range(1 + t % 25)], [(t % 2 == 0, t * i, f"v{t}.{i}")[(t + i) % 3] for i in range(1 + t % 25)]
        with contextlib.redirect_stdout(io.StringIO()):
            s.update(ks, vs)
        ref.update(dict(zip(ks, vs)))
        if not ctx.check(s.data == ref and all(type(s.data[k]) is type(ref[k]) for k in ref), "large-state", f"after {t + 1} updates the state differs from what was written"):
            break
        n += 1
    ctx.count(transitions=n)
    ctx.sample({"writes": n})


SEQ = [[((3,), 0), ((2, 3), 1), ((3, 1), 0)], [((2, 2, 2), 2), ((1, 3, 2), 1)], [((3, 2), 0), ((2, 3, 1), 1)]]
PARTS = {"single": (single, {}), "states": (states, {}), "strategy": (strategy, {}), "large": (large, {})}
for _i, _s in enumerate(SEQ):
    PARTS[f"seq{_i}"] = (sequences(_s), {})
