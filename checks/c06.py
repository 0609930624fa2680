"""C06: sampling steps are recorded without loss, overwrite or misalignment."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
import stubs
from flowMC.resource.buffers import Buffer
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.states import State
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
from flowMC.strategy.update_state import UpdateState

LEVEL = "model_checking"
BOUNDS = ("all configurations (strategy kind, n_steps 1-6, thinning 1-6, chains, dims, chain batch) for two successive calls; all operation sequences "
          "up to the depth over {serial, group, short serial, cursor hand-over both ways, redirect, reset}; every transition runs the real strategy and is "
          "compared with a plain numpy reference; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["buffers have room for what is written (writing past the end is outside the property)"]

KINDS = {"serial": (TakeSerialSteps, stubs.CounterKernel), "group": (TakeGroupSteps, stubs.GroupCounterKernel)}
KEY = jax.random.PRNGKey(0)


def resources(C, d, cap):
    r = {}
    for n in ("P1", "P2"):
        r[n] = Buffer(n, (C, cap, d), 1)
    for n in ("L1", "L2", "A1", "A2"):
        r[n] = Buffer(n, (C, cap), 1)
    r["X"] = Buffer("X", (C, cap, d), 1)
    r["serial_kernel"] = stubs.CounterKernel()
    r["group_kernel"] = stubs.GroupCounterKernel()
    r["logpdf"] = LogPDF(lambda x, data: x[0] + 0.5, n_dims=d)
    r["state"] = State({"p": "P1", "l": "L1", "a": "A1", "other": 3}, "state")
    return r


def start(C, d):
    return 1000.0 * (1 + np.arange(C))[:, None] + 100.0 * np.arange(d)[None, :]


def strategy(kind, n, t, b=0):
    cls, _ = KINDS[kind]
    return cls("logpdf", kind + "_kernel", "state", ["p", "l", "a"], n, thinning=t, chain_batch_size=b)


class Ref:
    """The boring reference model."""

    def __init__(self, C, d, cap):
        self.buf = {}
        for n in ("P1", "P2", "X"):
            self.buf[n] = np.full((C, cap, d), -np.inf)
        for n in ("L1", "L2", "A1", "A2"):
            self.buf[n] = np.full((C, cap), -np.inf)
        self.target = "1"
        self.pos = start(C, d)
        self.cur = {}

    def copy(self):
        r = object.__new__(Ref)
        r.buf = {k: v.copy() for k, v in self.buf.items()}
        r.target, r.pos, r.cur = self.target, self.pos.copy(), dict(self.cur)
        return r

    def take(self, sid, n, t):
        at = self.cur[sid]
        for k, step in enumerate(range(1, n + 1, t)):
            p = self.pos + step
            self.buf["P" + self.target][:, at + k] = p
            self.buf["L" + self.target][:, at + k] = p[:, 0] + 0.5
            self.buf["A" + self.target][:, at + k] = stubs.flag_of(np.round(p[:, 0]).astype(int))
            last = p
        self.pos = last
        self.cur[sid] = at + k + 1


def compare(ctx, key, res, ref, pos, detail):
    for n, want in ref.buf.items():
        got = np.asarray(res[n].data)
        if got.shape != want.shape or not np.array_equal(got, want):
            kind = {"P": "position", "L": "log-probability", "A": "acceptance", "X": "unrelated"}[n[0]]
            same = got.shape == want.shape
            i = np.argwhere(got != want)[0] if same else None
            ctx.violation(key + ":" + n[0], f"{kind} buffer {n} is not what was sampled: " + (f"entry {i.tolist()} is {got[tuple(i)]}, must be {want[tuple(i)]}" if same else f"shape {got.shape}"), **detail)
            return False
    return ctx.check(np.array_equal(np.asarray(pos), ref.pos), key + ":handed", f"the position handed on is {np.asarray(pos).tolist()}, must be {ref.pos.tolist()}", **detail)


def sweep(kind, Cd, bs, nts=None):
    def part(ctx):
        N = 9 if ctx.thorough else 6
        for (C, d), b in itertools.product(Cd, bs):
            for n, t in nts or itertools.product(range(1, N + 1), range(1, N + 1)):
                s = strategy(kind, n, t, b)
                cap = 3 * n + 2 if (n + t + C) % 2 else 1 + 2 * len(range(0, n, t))  # with room left, or filled to the last entry
                res, ref = resources(C, d, cap), Ref(C, d, cap)
                pos = jnp.asarray(start(C, d), jnp.float32)
                s.set_current_position(1)
                ref.cur["s"] = 1
                detail = dict(kind=kind, n_steps=n, thinning=t, chains=C, dims=d, chain_batch=b)
                for call in (1, 2):
                    out = mc.guard(ctx, f"{kind}-exception-n{n}-t{t}-C{C}-b{b}", lambda: s(KEY, res, pos, {"a": 1.0}))
                    if out is None:
                        break
                    _, res, pos = out
                    ref.take("s", n, t)
                    ctx.count(transitions=1, traces=1)
                    ok = compare(ctx, f"{kind}-n{n}-t{t}-C{C}-d{d}-b{b}-call{call}", res, ref, pos, detail)
                    ok = ok and ctx.check(s.current_position == ref.cur["s"], f"{kind}-n{n}-t{t}-C{C}-d{d}-b{b}-call{call}:cursor", f"write position after the call is {s.current_position}, must be {ref.cur['s']}", **detail)
                    if not ok:
                        break
                ctx.count(states=2)
        ctx.sample({"kind": kind, "chains_dims": Cd, "batches": bs, "n_steps x thinning": nts or f"{N}x{N}", "calls": 2})
    return part


OPS = ["S", "G", "s", "S>G", "G>S", "redirect", "reset"]


def histories(first):
    def part(ctx):
        C, d, cap = 2, 2, 40
        depth = 6 if ctx.thorough else 5
        strats = {"S": strategy("serial", 5, 2), "G": strategy("group", 4, 3), "s": strategy("serial", 2, 1, 1)}
        spec = {"S": (5, 2), "G": (4, 3), "s": (2, 1)}
        to2 = UpdateState("state", ["p", "l", "a"], ["P2", "L2", "A2"])
        seen = set()

        def apply(op, res, ref, pos):
            if op in strats:
                s = strats[op]
                s.set_current_position(ref.cur[op])
                _, res, pos = s(KEY, res, pos, {"a": 1.0})
                ref.take(op, *spec[op])
                ctx.check(s.current_position == ref.cur[op], "history:cursor", f"write position {s.current_position}, must be {ref.cur[op]}")
                ref.cur[op] = s.current_position
            elif op == "S>G":
                strats["S"].set_current_position(ref.cur["S"])
                strats["G"].set_current_position(strats["S"].current_position)
                ref.cur["G"] = ref.cur["s"] = strats["G"].current_position
            elif op == "G>S":
                strats["G"].set_current_position(ref.cur["G"])
                strats["S"].set_current_position(strats["G"].current_position)
                ref.cur["S"] = ref.cur["s"] = strats["S"].current_position
            elif op == "redirect":
                _, res, pos2 = to2(KEY, res, pos, {})
                ctx.check(pos2 is pos or np.array_equal(pos2, pos), "history:redirect-pos", "redirecting changed the position")
                ref.target = "2"
            elif op == "reset":
                for k in ref.cur:
                    ref.cur[k] = 0
            return res, ref, pos

        def snapshot(res):
            out = dict(res)
            for n in ("P1", "P2", "L1", "L2", "A1", "A2", "X"):
                b = Buffer(n, res[n].shape, 1)
                b.data = res[n].data
                out[n] = b
            out["state"] = State(dict(res["state"].data), "state")
            return out

        def dfs(hist, res, ref, pos):
            for op in OPS:
                if not hist and op != first:
                    continue
                r2, f2, p2 = apply(op, snapshot(res), ref.copy(), pos)
                h = hist + [op]
                ctx.count(transitions=1)
                ok = compare(ctx, "history:" + ",".join(h), r2, f2, p2, dict(history=h))
                k = (f2.target, tuple(sorted(f2.cur.items())), tuple(f2.pos.reshape(-1)), tuple(f2.buf["P1"].reshape(-1)), tuple(f2.buf["P2"].reshape(-1)), tuple(f2.buf["L1"].reshape(-1)))
                kk = (hash(k), len(h))
                if not ok:
                    continue
                if len(h) >= depth:
                    ctx.count(traces=1)
                    seen.add(kk)
                    continue
                if kk in seen:
                    continue
                seen.add(kk)
                dfs(h, r2, f2, p2)

        ref = Ref(C, d, cap)
        ref.cur = {"S": 0, "G": 0, "s": 0}
        dfs([], resources(C, d, cap), ref, jnp.asarray(start(C, d), jnp.float32))
        ctx.count(states=len(seen))
        ctx.sample({"first": first, "depth": depth, "states": len(seen), "ops": OPS})
    return part


BIG = [(130, 1), (130, 7), (100, 64), (37, 36), (37, 37), (37, 200), (200, 23)]

PARTS = {
    "serial_big": (sweep("serial", [(33, 3)], [0, 8, 33], BIG), {}),
    "group_big": (sweep("group", [(33, 3)], [0, 32, 100], BIG), {}),
    "dims_big": (sweep("serial", [(2, 20)], [0], [(5, 2), (64, 3)]), {}),
    "serial_a": (sweep("serial", [(1, 2)], [0]), {}),
    "serial_b": (sweep("serial", [(3, 1)], [0, 2]), {}),
    "group_a": (sweep("group", [(1, 2)], [0]), {}),
    "group_b": (sweep("group", [(3, 1)], [0, 2]), {}),
    "hist_S": (histories("S"), {}),
    "hist_G": (histories("G"), {}),
    "hist_s": (histories("s"), {}),
    "hist_r": (histories("redirect"), {}),
}
