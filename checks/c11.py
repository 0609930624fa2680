"""C11: the sampler runs exactly the requested strategies, threading their results."""
import copy
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.resource_strategy_bundle.base import ResourceStrategyBundle
from flowMC.Sampler import Sampler
from flowMC.strategy.base import Strategy
from flowMC.strategy.lambda_function import Lambda
from flowMC.strategy.update_state import UpdateState

LEVEL = "model_checking"
BOUNDS = ("every strategy order of length 0-4 (0-6 thorough) over {two spies, a resource-replacing spy, state update, function strategy, unknown name}, for both ways of building the "
          "sampler, 1-D and 2-D initial positions; every call received by every strategy and every resulting resource compared with a reference interpreter; "
          "two consecutive sample calls")
ASSUMPTIONS = ["strategies are called as f(key, resources, position, data) and return (key, resources, position)"]


class Spy(Strategy):
    """Returns a new key, a changed resources dict and a changed position; logs what it received."""

    def __init__(self, name, log, replace=False):
        self.name, self.log, self.replace = name, log, replace

    def __call__(self, rng_key, resources, initial_position, data):
        self.log.append((self.name, tuple(np.asarray(rng_key).tolist()), id(resources), resources["trace"].data["t"], np.array(initial_position), dict(data), id(data)))
        key = jnp.asarray(rng_key) + jnp.array([1, 10 if self.name == "A" else 100], jnp.uint32)
        if self.replace:
            resources = dict(resources)
            resources["trace"] = State(dict(resources["trace"].data), "trace")
        resources["trace"].data["t"] += self.name
        return key, resources, initial_position + (1.0 if self.name == "A" else 16.0)


NAMES = ["A", "B", "R", "upd", "fun", "nope"]


def build(log, how, order, key):
    flog = []

    def f(rng_key, resources, initial_position, data):
        flog.append((tuple(np.asarray(rng_key).tolist()), resources["trace"].data["t"], np.array(initial_position), dict(data)))
        return "ignored"

    res = {"trace": State({"t": "", "flag": 0, "keep": "x", "n": 5}, "trace"), "buf": Buffer("buf", (2, 3), 1)}
    st = {
        "A": Spy("A", log), "B": Spy("B", log), "R": Spy("R", log, True),
        "upd": UpdateState("trace", ["flag", "new"], [True, "v"]), "fun": Lambda(f),
    }
    if how == "direct":
        s = Sampler(2, 2, key, resources=res, strategies=st, strategy_order=list(order))
    else:
        class Bd(ResourceStrategyBundle):
            def __init__(self):
                self.resources, self.strategies, self.strategy_order = res, st, list(order)

            def __repr__(self):
                return "b"

        s = Sampler(2, 2, key, resource_strategy_bundles=Bd())
    return s, flog


def interpret(order, key, pos, trace, flag):
    """Reference: yields the calls each strategy must see."""
    calls, fcalls = [], []
    for n in order:
        if n == "nope":
            return calls, fcalls, trace, flag, key, pos, True
        if n == "upd":
            flag = True
        elif n == "fun":
            fcalls.append((key, trace, pos.copy()))
        else:
            calls.append((n, key, trace, pos.copy()))
            key = (key[0] + 1, key[1] + (10 if n == "A" else 100))
            trace += n
            pos = pos + (1.0 if n == "A" else 16.0)
    return calls, fcalls, trace, flag, key, pos, False


def short(order):
    return order if len(order) < 20 else f"{order[:12]}... of length {len(order)}"


def run_order(ctx, order, how, x0, tag):
    key = jnp.array([3, 7], jnp.uint32)
    log = []
    s, flog = build(log, how, order, key)
    k = f"{how}-{tag}-" + ",".join(order[:60])
    data = {"d": 4, "nested": {"x": 1}}
    d0 = copy.deepcopy(data)
    xin = x0.copy()
    trace, flag = "", 0
    for call in (1, 2):
        n0, f0 = len(log), len(flog)
        raised = None
        try:
            s.sample(x0, data)
        except ValueError as e:
            raised = e
        # which key a second run starts from is not part of the property
        start = (3, 7) if call == 1 else (log[n0][1] if len(log) > n0 else flog[f0][0] if len(flog) > f0 else (3, 7))
        calls, fcalls, trace, flag, _, _, bad = interpret(order, start, np.atleast_2d(x0).astype(float), trace, flag)
        kk = f"{k}:{call}"
        ctx.check((raised is not None) == bad, kk + ":raise", f"order {short(order)}: " + ("an unknown strategy name did not raise ValueError" if bad else f"raised {raised!r}"))
        got = log[n0:]
        ctx.check([g[0] for g in got] == [c[0] for c in calls], kk + ":order", f"order {short(order)}: strategies run {[g[0] for g in got]}, must be {[c[0] for c in calls]}")
        for g, c in zip(got, calls):
            ctx.check(g[1] == c[1], kk + ":key", f"order {short(order)}: {g[0]} received key {g[1]}, its predecessor returned {c[1]}")
            ctx.check(g[3] == c[2], kk + ":resources", f"order {short(order)}: {g[0]} received resources of history '{g[3]}', must be '{c[2]}'")
            ctx.check(np.array_equal(g[4], c[3]), kk + ":position", f"order {short(order)}: {g[0]} received position {g[4].tolist()}, must be {c[3].tolist()}")
            ctx.check(g[5] == d0, kk + ":data", f"order {short(order)}: {g[0]} received data {g[5]}")
        gf = flog[f0:]
        ctx.check(len(gf) == len(fcalls), kk + ":fun", f"order {short(order)}: the function ran {len(gf)} times, must be {len(fcalls)}")
        for g, c in zip(gf, fcalls):
            ctx.check(g[0] == c[0] and g[1] == c[1] and np.array_equal(g[2], c[2]) and g[3] == d0, kk + ":fun-args", f"order {short(order)}: the function strategy received {g}, must be {c}")
        r = s.resources
        want = {"t": trace, "flag": flag, "keep": "x", "n": 5}
        if flag is True:
            want["new"] = "v"
        got = r["trace"].data
        ctx.check(got == want and all(type(got[a]) is type(want[a]) for a in want), kk + ":final", f"order {short(order)}: final resources hold {got}, must be {want}")
        ctx.check(set(r) == {"trace", "buf"} and np.all(np.isneginf(np.asarray(r["buf"].data))) and r["buf"].cursor == 0, kk + ":untouched", "another resource changed")
        ctx.check(np.array_equal(x0, xin) and data == d0, kk + ":input", "the caller's position or data was modified")
        ctx.count(transitions=len(calls) + len(fcalls) + 1)
        if raised is not None or bad:
            break
    ctx.count(states=1, traces=1)


def orders(first, how):
    def part(ctx):
        depth = 4 if not ctx.thorough else 5
        n = 0
        for L in range(0, depth + 1):
            for o in itertools.product(NAMES, repeat=L):
                if (o and o[0] not in first) or (not o and "A" not in first):
                    continue
                # a name after an unknown one is never reached; keep one representative per tail
                if "nope" in o[:-1] and set(o[o.index("nope") + 1:]) - {"A"}:
                    continue
                run_order(ctx, o, how, np.array([[1.0, 2.0], [3.0, 4.0]]), "2d")
                n += 1
                if L <= 2:
                    run_order(ctx, o, how, np.array([1.0, 2.0]), "1d")
                    run_order(ctx, o, how, jnp.array([[1.0, 2.0]]), "jax")
        # a long run: every position of a long order is reached
        if "A" in first:
            for L in (1501, 6 * 400):
                o = tuple(NAMES[(i * i + i // 7) % 5] for i in range(L))
                run_order(ctx, o, how, np.array([[1.0, 2.0], [3.0, 4.0]]), f"long{L}")
                run_order(ctx, o[:50] + ("nope",) + o[:3], how, np.array([[1.0, 2.0], [3.0, 4.0]]), f"long{L}-bad")
        ctx.sample({"first": first, "how": how, "orders": n, "depth": depth})
    return part


def construct(ctx):
    key = jnp.array([3, 7], jnp.uint32)
    res, st = {"trace": State({"t": ""}, "trace")}, {}
    try:
        Sampler(2, 2, key)
        ctx.violation("nothing", "a sampler without resources, strategies or bundle did not raise ValueError")
    except ValueError:
        pass
    for r, s in ((None, {}), ({}, None), (None, None)):
        try:
            Sampler(2, 2, key, resources=r, strategies=s, strategy_order=["A"])
            ctx.violation("partial", "a sampler without bundle and without both resources and strategies did not raise ValueError")
        except ValueError:
            pass

    class Bd(ResourceStrategyBundle):
        def __init__(self):
            self.resources, self.strategies, self.strategy_order = {"b": 1}, {"c": 2}, ["c"]

        def __repr__(self):
            return "b"

    # explicit resources and strategies win over a bundle; otherwise the bundle is used
    s = Sampler(2, 2, key, resources=res, strategies=st, strategy_order=["z"], resource_strategy_bundles=Bd())
    ctx.check(s.resources is res and s.strategies is st and s.strategy_order == ["z"], "prefer", "explicit resources and strategies are not preferred over the bundle")
    for r, q in ((None, None), (res, None), (None, st)):
        s = Sampler(2, 2, key, resources=r, strategies=q, strategy_order=["z"], resource_strategy_bundles=Bd())
        ctx.check(s.resources == {"b": 1} and s.strategies == {"c": 2} and s.strategy_order == ["c"], "bundle", "the bundle is not used when resources or strategies are missing")
    s = Sampler(4, 7, key, resources=res, strategies=st, strategy_order=[], verbose=True, logging=False, outdir="/x", bogus=3, __doc__="no")
    ctx.check((s.n_dim, s.n_chains, s.verbose, s.logging, s.outdir) == (4, 7, True, False, "/x") and not hasattr(s, "bogus"), "kwargs", "keyword settings are not taken over")
    s = Sampler(4, 7, key, resources=res, strategies=st, strategy_order=[])
    ctx.check((s.verbose, s.logging, s.outdir) == (False, True, "./outdir/"), "defaults", "keyword settings leak between samplers")
    ctx.count(states=9, transitions=9, traces=9)


def updates(ctx):
    """UpdateState and State over every short history of updates, against a dict."""
    keys, vals = ["a", "b", "c"], [True, 0, "buf", 7]
    ops = [(k, v) for k in keys for v in vals]
    n = 0
    for L in (1, 2, 3) if ctx.thorough else (1, 2):
        for h in itertools.product(ops, repeat=L):
            for grouped in (False, True):
                s = State({"a": 1, "b": "z"}, "s")
                other = State({"a": 1}, "o")
                res = {"s": s, "o": other}
                ref = {"a": 1, "b": "z"}
                pos = np.ones((1, 1))
                todo = [([k for k, _ in h], [v for _, v in h])] if grouped else [([k], [v]) for k, v in h]
                for ks, vs in todo:
                    k0, r, p = UpdateState("s", ks, vs)("key", res, pos, {})
                    for k, v in zip(ks, vs):
                        ref[k] = v
                    ctx.check(k0 == "key" and r is res and p is pos, "upd:thread", "a state update changed key, resources or position")
                ok = s.data == ref and all(type(s.data[k]) is type(ref[k]) for k in ref) and other.data == {"a": 1} and set(res) == {"s", "o"} and res["s"].name == "s"
                ctx.check(ok, f"upd-{h}", f"state is {s.data} after updates {h}, must be {ref}")
                n += 1
    ctx.count(states=n, transitions=n, traces=n)
    ctx.sample({"histories": n})


PARTS = {}
for _h in ("direct", "bundle"):
    for _f in (["A"], ["B", "R"], ["upd", "fun", "nope"]):
        PARTS[f"{_h}_{'_'.join(_f)}"] = (orders(_f, _h), {})
PARTS["construct"] = (construct, {})
PARTS["updates"] = (updates, {})
