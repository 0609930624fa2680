"""C21: training uses the intended history, and every example at most once per epoch."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import fmlib
import mc
import stubs
import tape as T
from flowMC.resource.buffers import Buffer
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.states import State
from flowMC.strategy.train_model import TrainModel

LEVEL = "model_checking"
BOUNDS = ("every (chains 1-3, recorded steps, window, batch size) of the stated grids with every outcome of the example choice on a grid of draws, observed through a model "
          "whose gradient is the histogram of its batch; every epoch of every (data size, batch size) pair with every shuffle; every sequence of training calls up to "
          "depth 3 over {train, record more steps} on the real resources; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["every chain has the same number of recorded finite entries, as the step strategies leave them"]

quiet = lambda: contextlib.redirect_stdout(io.StringIO())


def code(c, t):
    return 10 * c + t + 1


def setup(C, cap, filled, n_codes, max_steps, d=2, loss=8, hole=None):
    buf = Buffer("data", (C, cap, d), 1)
    a = np.full((C, cap, d), -np.inf, np.float32)
    for c in range(C):
        a[c, :filled, 0] = [code(c, t) for t in range(filled)]
        a[c, :filled, 1] = np.arange(filled) * 0.37 + c
        if hole is not None:
            a[c, hole[c], 1] = np.nan
    buf.data = jnp.asarray(a)
    m = stubs.HistModel(d, n_codes)
    opt = Optimizer.__new__(Optimizer)
    opt.optim = stubs.rec_optim(n_codes, max_steps)
    opt.optim_state = opt.optim.init()
    other = Buffer("other", (C, 3), 1)
    other.data = jnp.arange(3.0 * C).reshape(C, 3)
    m2, o2 = stubs.HistModel(d, n_codes), Optimizer.__new__(Optimizer)
    o2.optim, o2.optim_state = opt.optim, opt.optim.init()
    return {"m": m, "data": buf, "opt": opt, "loss": Buffer("loss", (loss,), 0), "other": other, "m2": m2, "opt2": o2, "st": State({"training": True}, "st")}


_TP = {}


def shared(tp):
    """one tape per slot table, so that compiled code is reused"""
    return _TP.setdefault(tuple(tp.slots), tp)


def recorded(r, B=None, which="opt"):
    return stubs.batches(r[which].optim_state, B)


def eligible(C, filled, W, hole=None):
    out = set()
    for c in range(C):
        ts = [t for t in range(filled) if hole is None or t != hole[c]]
        out |= {code(c, t) for t in ts[-W:]}
    return out


def choice(C):
    """Which recorded points can be chosen: every outcome of the choice draw on a grid."""
    def part(ctx):
        cap = 4
        n_codes = 10 * C + cap + 2
        Q = np.concatenate([T.quantiles(24 if ctx.thorough else 4), [T.BITS0, T.BITSMAX]]).astype(np.uint32)
        for filled, W in itertools.product((1, 2, 4), (1, 2, 3, 100)):
            for hole in (None,) if filled < 4 else (None, [(c + 1) % 3 for c in range(C)]):
                want = eligible(C, filled, W, hole)
                k = f"choice-C{C}-filled{filled}-W{W}" + ("-holes" if hole else "")

                def run(key):
                    r = setup(C, cap, filled, n_codes, 4, hole=hole)
                    s = TrainModel("m", "data", "opt", n_epochs=1, batch_size=1, n_max_examples=1, history_window=W)
                    with quiet():
                        key, r, _ = s(key, r, jnp.zeros((C, 2)), {})
                    return r

                if mc.guard(ctx, k + ":exception", run, jax.random.PRNGKey(0)) is None:
                    continue
                tp = shared(T.discover(lambda key: run(key)["m"].w)[0])
                got = set()
                base = np.full(tp.S, T.quantiles(2)[0], np.uint32)
                tapes = []
                for s in range(tp.S):
                    for q in Q:
                        b = base.copy()
                        b[s] = q
                        tapes.append(b)
                # small integers in the low bits reach every remainder too
                for v in range(C * cap + 1):
                    tapes.append(np.full(tp.S, v, np.uint32))
                    if ctx.thorough:
                        tapes.append(np.full(tp.S, (v << 20) + v, np.uint32))
                for tpv in np.unique(np.array(tapes), axis=0):
                    r = run(tp.key(tpv))
                    b = recorded(r, 1)
                    if not ctx.check(len(b) == 1 and len(b[0]) == 1 and list(b[0].values()) == [1.0], k + ":one", f"one example requested, the model is trained on {b}"):
                        continue
                    got |= set(b[0])
                    ctx.count(transitions=1)
                ctx.check(got <= want, k + ":foreign", f"entries {sorted(got - want)} are trained on; the last {W} recorded entries of each chain are {sorted(want)}")
                ctx.check(want <= got, k + ":unreachable", f"entries {sorted(want - got)} of {sorted(want)} are never chosen, whatever the draws")
                ctx.count(states=len(want), traces=1)
        ctx.sample({"last": k, "eligible": sorted(want), "chosen": sorted(got)})
    return part


def counts(ctx):
    """Number and size of the batches a training call makes."""
    for C, M, B, E in itertools.product((1, 2), (2, 3, 5), (1, 2, 3, 4, 7), (1, 3)):
        cap = filled = 4
        n_codes = 10 * C + cap + 2
        r = setup(C, cap, filled, n_codes, 32)
        s = TrainModel("m", "data", "opt", loss_buffer_name="loss", n_epochs=E, batch_size=B, n_max_examples=M, history_window=3)
        k = f"counts-C{C}-M{M}-B{B}-E{E}"

        def go():
            with quiet():
                return s(jax.random.PRNGKey(ctx.seed), r, jnp.zeros((C, 2)), {})

        if mc.guard(ctx, k + ":exception", go) is None:
            continue
        size = B if M >= B else M
        nb = max(1, M // B)
        b = recorded(r, size)
        ctx.check(len(b) == E * nb, k + ":steps", f"{len(b)} optimizer steps, must be {E * nb}")
        want = eligible(C, filled, 3)
        for x in b:
            tot = sum(x.values())
            ctx.check(abs(tot - size) < 1e-2 and all(abs(v - round(v)) < 1e-2 for v in x.values()) and set(x) <= want, k + ":size", f"a batch holds {x}, must be {size} examples out of {sorted(want)}")
        if M % B == 0 or M < B:
            per = [sum((np.array([x.get(i, 0) for i in range(n_codes)]) for x in b[e * nb : (e + 1) * nb]), np.zeros(n_codes)) for e in range(E)]
            ctx.check(all(np.allclose(p, per[0], atol=1e-2) for p in per), k + ":epochs", f"epochs see different examples: {[p.nonzero()[0].tolist() for p in per]}")
        ctx.check(float(r["m"].w[0]) == E * nb, k + ":model", "the stored model is not the trained one")
        ctx.count(states=len(b), transitions=len(b), traces=1)
    ctx.sample({"last": k})


def shuffle(N):
    """train() itself: every shuffle of N distinct examples; two epochs."""
    def part(ctx):
        data = jnp.asarray(np.stack([np.arange(1, N + 1), np.linspace(0, 1, N)], 1), jnp.float32)
        for B in range(1, N + 2) if N < 5 or ctx.thorough else (2, 3):
            def run(key, E=1):
                m = stubs.HistModel(2, N + 2)
                o = stubs.rec_optim(N + 2, 4 * N + 4)
                with quiet():
                    _, m, s, _ = m.train(key, data, o, o.init(), E, B, verbose=False)
                return stubs.batches(s, B if B <= N else N)

            tp, _ = T.discover(lambda key: run(key) and jnp.zeros(()))
            k = f"shuffle-N{N}-B{B}"
            nb = max(1, N // B)
            size = min(B, N)
            orders = set()
            tapes = T.product_grid([T.quantiles(N)] * min(tp.S, N)) if tp.S else np.zeros((1, 0), np.uint32)
            if tp.S > N:  # further sort rounds get fixed distinct words
                extra = np.broadcast_to(T.quantiles(97)[: tp.S - N], (len(tapes), tp.S - N))
                tapes = np.concatenate([tapes, extra], 1)
            if not ctx.thorough:
                # distinct sort keys only: every order once, plus a few ties
                keep = np.array([len(set(t[:N].tolist())) == N for t in tapes]) if tp.S else np.ones(1, bool)
                ties = tapes[~keep][:: max(1, (~keep).sum() // 5)] if (~keep).any() else tapes[:0]
                tapes = np.concatenate([tapes[keep], ties])
            for t in tapes:
                b = run(tp.key(t))
                check_epoch(ctx, k, b, N, nb, size)
                orders.add(str(b))
                ctx.count(transitions=nb)
            for E in (2, 3):
                b = run(jax.random.PRNGKey(ctx.seed), E)
                if ctx.check(len(b) == E * nb, k + ":steps", f"{len(b)} steps in {E} epochs, must be {E * nb}"):
                    for e in range(E):
                        check_epoch(ctx, k, b[e * nb : (e + 1) * nb], N, nb, size)
            ctx.count(states=len(orders), traces=len(tapes))
            if nb > 1:
                ctx.check(len(orders) > 1, f"shuffle-N{N}-B{B}", "the batches are the same for every outcome of the shuffle")
        ctx.sample({"examples": N, "batch": B, "distinct epochs": len(orders)})
    return part


def large(ctx):
    """Many chains, long histories, large batches: which examples may be and are trained on, and how many"""
    for C, filled, W, M, B, E in ((20, 30, 7, 500, 64, 2), (7, 120, 50, 300, 300, 1), (3, 200, 1000, 2000, 130, 1), (33, 9, 9, 100, 1000, 12), (2, 65, 64, 700, 7, 1), (3, 1000, 800, 3000, 3000, 1), (2, 3000, 10000, 4000, 4000, 1), (300, 8, 5, 6000, 6000, 1)):
        n_codes = C * filled + 1
        k = f"large-C{C}-filled{filled}-W{W}-M{M}-B{B}-E{E}"
        nb, size = max(1, M // B), min(B, M)
        r = setup(C, filled + 5, 0, n_codes, E * nb + 1, loss=E + 2)
        a = np.array(r["data"].data)
        a[:, :filled, 0] = 1 + np.arange(C * filled).reshape(C, filled)
        a[:, :filled, 1] = np.arange(filled) * 0.01
        r["data"].data = jnp.asarray(a)
        s = TrainModel("m", "data", "opt", loss_buffer_name="loss", n_epochs=E, batch_size=B, n_max_examples=M, history_window=W)

        def go():
            with quiet():
                return s(jax.random.PRNGKey(ctx.seed), r, jnp.zeros((C, 2)), {})

        if mc.guard(ctx, k + ":exception", go) is None:
            continue
        b = recorded(r, size)
        ctx.check(len(b) == E * nb, k + ":steps", f"{len(b)} optimizer steps, must be {E * nb}")
        want = {1 + c * filled + t for c in range(C) for t in range(filled)[-W:]}
        got = set()
        for x in b:
            tot = sum(x.values())
            ctx.check(abs(tot - size) < 0.05 and all(abs(v - round(v)) < 0.05 for v in x.values()), k + ":size", f"a batch holds {tot} examples, must hold {size}")
            got |= set(x)
        ctx.check(got <= want, k + ":foreign", f"{len(got - want)} entries outside the last {W} recorded of each chain are trained on, such as {sorted(got - want)[:3]}")
        # every chain and every age of the window can be chosen: of M draws none misses a whole chain or, with enough draws, an age
        n_el = len(want)
        chains = {(i - 1) // filled for i in got}
        seen = min(n_el, len(got))
        ctx.check(seen >= min(n_el, M) * 0.4, k + ":few", f"only {len(got)} different examples are chosen by {M} draws from {n_el}")
        if M >= 12 * C:
            ctx.check(len(chains) == C, k + ":chains", f"no example of chains {sorted(set(range(C)) - chains)} is among the {M} chosen")
        # no stretch of 25 n/M entries, in the order of the chains or of the ages, is missed by M draws (chance below 1e-8)
        size_ = -(-25 * n_el // M)
        for by in (lambda i: i, lambda i: ((i - 1) % filled, (i - 1) // filled)):
            order = sorted(want, key=by)
            for j in range(0, n_el - size_ + 1, size_):
                ctx.check(not got.isdisjoint(order[j : j + size_]), k + ":stretch", f"none of the {size_} entries from entry {(order[j] - 1) % filled} of chain {(order[j] - 1) // filled} on is among the {M} chosen from {n_el}")
        ctx.check(np.isfinite(np.array(r["loss"].data)[:E]).all() and r["loss"].cursor == E, k + ":loss", "the losses of the epochs are not recorded")
        ctx.count(states=n_el, transitions=len(b), traces=1)
    for N, B in ((100, 7), (257, 64), (64, 64), (1000, 999), (50, 1)):
        data = jnp.asarray(np.stack([np.arange(1, N + 1), np.linspace(0, 1, N)], 1), jnp.float32)
        m = stubs.HistModel(2, N + 2)
        nb, size = max(1, N // B), min(B, N)
        o = stubs.rec_optim(N + 2, 3 * nb + 1)
        with quiet():
            _, m, st, _ = m.train(jax.random.PRNGKey(ctx.seed), data, o, o.init(), 3, B, verbose=False)
        b = stubs.batches(st, size)
        if ctx.check(len(b) == 3 * nb, f"large-N{N}-B{B}:steps", f"{len(b)} steps in 3 epochs, must be {3 * nb}"):
            for e in range(3):
                check_epoch(ctx, f"large-N{N}-B{B}", b[e * nb : (e + 1) * nb], N, nb, size)
        ctx.count(states=N, transitions=3 * nb, traces=1)
    ctx.sample({"last": f"N{N}-B{B}"})


def check_epoch(ctx, k, b, N, nb, size):
    ctx.check(len(b) == nb, k + ":steps", f"{len(b)} batches of {size} from {N} examples, must be {nb}")
    seen = {}
    for x in b:
        ctx.check(abs(sum(x.values()) - size) < 1e-2, k + ":size", f"a batch holds {sum(x.values())} examples, must hold {size}")
        for i, v in x.items():
            seen[i] = seen.get(i, 0) + v
    ctx.check(all(abs(v - 1) < 1e-2 for v in seen.values()), k + ":repeat", f"examples are used {seen} times in one epoch")
    ctx.check(N - len(seen) < max(size, 1), k + ":left", f"{N - len(seen)} of {N} examples are left out with batch size {size}")
    ctx.check(set(seen) <= set(range(1, N + 1)), k + ":foreign", "examples that were not given are trained on")


def fm_batches(ctx):
    """Flow matching: which examples a batch holds, read off the gradient of a zero linear network."""
    for N, B, E in itertools.product((1, 2, 3, 4, 5), (1, 2, 3, 4, 6), (1, 3)):
        if N == 1:
            continue
        rng = np.random.default_rng(N)
        x0, x1 = rng.normal(size=(N, 2)), rng.normal(size=(N, 2)) * 2 + 1
        t = np.linspace(0.1, 0.9, N)[:, None]
        mu, std = x1.mean(0), np.sqrt(np.diag(np.cov(x1.T)))
        dx = (x1 - mu) / std - x0
        log = []
        o = fmlib.spy(log)
        k = f"fm-N{N}-B{B}-E{E}"
        r = mc.guard(ctx, k + ":exception", fmlib.train, fmlib.linear(2), jax.random.PRNGKey(ctx.seed), (jnp.asarray(x0), jnp.asarray(x1), jnp.asarray(t)), o, o.init(), E, B)
        if r is None:
            continue
        nb, size = max(1, N // B), min(B, N)
        if not ctx.check(len(log) == E * nb, k + ":steps", f"{len(log)} optimizer steps, must be {E * nb}"):
            continue
        subs = list(itertools.combinations_with_replacement(range(N), size))
        cand = np.array([-dx[list(s)].sum(0) / size for s in subs])
        for e in range(E):
            b = []
            for W, g in log[e * nb : (e + 1) * nb]:
                hit = np.argwhere(np.abs(cand - g).max(1) < 1e-8)[:, 0]
                if ctx.check(len(hit) == 1, k + ":size", f"a batch is not {size} of the {N} examples given"):
                    h = {}
                    for i in subs[hit[0]]:
                        h[i + 1] = h.get(i + 1, 0) + 1
                    b.append(h)
            check_epoch(ctx, k, b, N, nb, size)
        ctx.count(states=len(subs), transitions=len(log), traces=1)
    ctx.sample({"last": k})


def histories(ctx):
    """Breadth first over sequences of training calls and further recording."""
    depth = 3 if not ctx.thorough else 4
    C, cap, n_codes = 2, 8, 32
    cfgs = {"A": dict(n_epochs=1, batch_size=2, n_max_examples=4, history_window=2), "B": dict(n_epochs=2, batch_size=3, n_max_examples=3, history_window=5)}
    for seq in itertools.product(("A", "B", "r", "a2"), repeat=depth):
        if "A" not in seq and "B" not in seq:
            continue
        r = setup(C, cap, 2, n_codes, 40, loss=10)
        filled, steps, losses = 2, 0, []
        steps2 = 0
        pos = jnp.arange(4.0).reshape(2, 2)
        key = jax.random.PRNGKey(1 + ctx.seed)
        h = "".join(seq)
        for i, op in enumerate(seq):
            if op == "r":  # the sampler records two more steps
                a = np.array(r["data"].data)
                for c in range(C):
                    for t in (filled, filled + 1):
                        a[c, t] = [code(c, t), 0.1 * t + c]
                r["data"].data = jnp.asarray(a)
                filled += 2
                continue
            which = "opt"
            if op == "a2":  # training another model must leave the first alone
                s = TrainModel("m2", "data", "opt2", n_epochs=1, batch_size=2, n_max_examples=4, history_window=2)
                which = "opt2"
            else:
                s = TrainModel("m", "data", "opt", loss_buffer_name="loss", **cfgs[op])
            before = {n: (np.array(b.data) if isinstance(b, Buffer) else dict(b.data) if isinstance(b, State) else None) for n, b in r.items()}
            w2, w1 = float(r["m2"].w[0]), float(r["m"].w[0])
            cur = r["loss"].cursor
            others = {n: (id(b)) for n, b in r.items()}
            with quiet():
                out = mc.guard(ctx, f"history-{h}:exception", s, key, r, pos, {})
            if out is None:
                break
            k2, r2, p2 = out
            ctx.check(not np.array_equal(np.asarray(k2), np.asarray(key)), "history:key", "the key handed on is the one received")
            key = k2
            ctx.check(np.array_equal(np.asarray(p2), np.asarray(pos)), "history:pos", f"training changes the positions handed on ({h})")
            ctx.check(sorted(r2) == sorted(before), "history:names", f"training changes the set of resources ({h})")
            r = r2
            cf = cfgs.get(op) or dict(n_epochs=1, batch_size=2, n_max_examples=4, history_window=2)
            nb = max(1, cf["n_max_examples"] // cf["batch_size"])
            n = cf["n_epochs"] * nb
            if which == "opt":
                losses += [-(steps + (e + 1) * nb - 1) for e in range(cf["n_epochs"])]
                prev, steps = steps, steps + n
            else:
                prev, steps2 = steps2, steps2 + n
            log = recorded(r, cf["batch_size"], which)
            want = eligible(C, filled, cf["history_window"])
            ctx.check(len(log) == prev + n, "history:opt", f"after {h[: i + 1]} the optimizer has seen {len(log)} updates, must be {prev + n}")
            for x in log[prev:]:
                ctx.check(set(x) <= want, "history:data", f"call {i + 1} of {h} trains on {sorted(x)}, the window holds {sorted(want)}")
            ctx.check(float(r["m"].w[0]) == steps and float(r["m2"].w[0]) == steps2, "history:model", f"after {h[: i + 1]} the models have taken {float(r['m'].w[0])} and {float(r['m2'].w[0])} updates, must be {steps} and {steps2}")
            L = np.array(r["loss"].data)
            ctx.check(r["loss"].cursor == len(losses) and np.allclose(L[: len(losses)], losses, atol=1e-3) and np.isneginf(L[len(losses) :]).all(), "history:loss",
                      f"after {h[: i + 1]} the losses are {L.tolist()} with cursor {r['loss'].cursor}, must be {losses}")
            for nme in ("data", "other"):
                ctx.check(np.array_equal(np.array(r[nme].data), before[nme]), f"history:{nme}", f"training changes buffer {nme}")
            ctx.check(r["st"].data == before["st"], "history:state", "training changes a state")
            ctx.count(transitions=n)
        ctx.count(states=depth, traces=1)
    ctx.sample({"sequences": 4**depth, "last": h, "losses": L})


def stats(ctx):
    """The model is trained with the rows chosen: its stored mean and covariance are theirs."""
    for C, M, W in itertools.product((1, 2, 3), (2, 4, 9), (2, 100)):
        r = setup(C, 4, 4, 10 * C + 8, 4)
        # distinct weights in coordinate 1 make the chosen multiset readable off the batch
        s = TrainModel("m", "data", "opt", n_epochs=1, batch_size=M, n_max_examples=M, history_window=W)
        with quiet():
            out = mc.guard(ctx, f"stats-C{C}-M{M}-W{W}:exception", s, jax.random.PRNGKey(ctx.seed), r, jnp.zeros((C, 2)), {})
        if out is None:
            continue
        b = recorded(r, M)[0]
        rows = []
        flat = {code(c, t): np.array(setup(C, 4, 4, 2, 1)["data"].data)[c, t] for c in range(C) for t in range(4)}
        for i, v in b.items():
            rows += [flat[i]] * int(round(v))
        rows = np.array(rows)
        ctx.check(len(rows) == M, f"stats-C{C}-M{M}-W{W}:rows", f"{len(rows)} rows in a batch of {M}")
        ctx.check(np.allclose(r["m"]._data_mean, rows.mean(0), atol=1e-3) and np.allclose(r["m"]._data_cov, np.cov(rows.T), atol=1e-2), f"stats-C{C}-M{M}-W{W}", "stored mean and covariance are not those of the rows trained on")
        ctx.count(states=1, transitions=1, traces=1)


PARTS = {f"choice{C}": (choice(C), {}) for C in (1, 2, 3)}
PARTS.update({"counts": (counts, {}), "histories": (histories, {}), "stats": (stats, {}), "fm": (fm_batches, {"x64": True}), "large": (large, {})})
PARTS.update({f"shuffle{N}": (shuffle(N), {}) for N in (2, 3, 4, 5)})
