"""C08: randomness is reproducible and never reused."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import mc
import stubs
import tape as T
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.logPDF import LogPDF, TemperedPDF
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.states import State
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
from flowMC.Sampler import Sampler
from flowMC.strategy.base import Strategy
from flowMC.strategy.optimization import AdamOptimization
from flowMC.strategy.parallel_tempering import ParallelTempering
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
from flowMC.strategy.train_model import TrainModel

LEVEL = "model_checking"
BOUNDS = ("every draw of every strategy run (found by tracing the key tree of the real code) is changed to several other values from several base "
          "assignments, one at a time, and the set of decisions it changes is computed; all ordered pairs of strategies and whole bundle runs are "
          "checked for draws shared between calls; repeated runs are compared bit for bit")
ASSUMPTIONS = ["a draw is identified by the key it is made from; keys are compared through a 32-bit hash of their derivation path"]


def influence(run, tp, seed=0, n_base=3, n_alt=3, words=True):
    """{(slot, word): set of decision indices it changes} and the base decision vectors.
    run(key) -> 1-D decision vector."""
    rs = np.random.RandomState(seed)
    units = []
    b = 0
    for nid, n in tp.slots:
        if words:
            units += [((nid, w), [b + w]) for w in range(n)]
        else:
            units += [((nid, 0), list(range(b, b + n)))]
        b += n
    tapes = []
    for _ in range(n_base):
        base = rs.randint(0, 2**32, size=tp.S, dtype=np.uint64).astype(np.uint32)
        tapes.append(base)
        for _, cols in units:
            for _ in range(n_alt):
                t = base.copy()
                t[cols] = rs.randint(0, 2**32, size=len(cols), dtype=np.uint64).astype(np.uint32)
                tapes.append(t)
    tapes = np.array(tapes)
    D = np.asarray(run(tp.keys(tapes)))
    per = 1 + len(units) * n_alt
    out = {}
    for i, (u, _) in enumerate(units):
        ch = np.zeros(D.shape[1], bool)
        for k in range(n_base):
            base = D[k * per]
            alt = D[k * per + 1 + i * n_alt: k * per + 1 + (i + 1) * n_alt]
            ch |= ~((alt == base) | (np.isnan(alt) & np.isnan(base))).all(0)
        out[u] = set(np.flatnonzero(ch).tolist())
    return out, D, len(tapes)


def one_to_one(ctx, key, inf, labels, what):
    """Every draw changes at most one decision, every decision is changed by some draw of its own."""
    owner = {}
    for u, s in inf.items():
        names = sorted({labels[i] for i in s})
        if len(names) > 1:
            ctx.violation(f"{key}:shared", f"one random draw decides {len(names)} different things: {names[:4]} ({what})", decisions=names)
        for n in names:
            owner.setdefault(n, []).append(u)
    for n in sorted(set(labels)):
        if n not in owner:
            ctx.violation(f"{key}:constant", f"no random draw influences {n} ({what})")
    ctx.count(states=len(inf), traces=1)
    return owner


def serial(ctx):
    for (C, n, b) in [(3, 3, 0), (3, 3, 2), (4, 2, 3), (1, 4, 0), (5, 2, 2)]:
        d = n + 1

        def run(key):
            res = stubs.step_resources(stubs.DrawKernel(), LogPDF(lambda x, data: jnp.sum(x), n_dims=d), C, d, n)
            s = TakeSerialSteps("logpdf", "kernel", "state", ["p", "l", "a"], n, chain_batch_size=b)
            s(key, res, jnp.zeros((C, d)), {"a": 0.0})
            return jnp.concatenate([res["P"].data[:, :, -1].reshape(-1), res["L"].data.reshape(-1)])

        tp, _ = T.discover(run)
        inf, D, m = influence(jax.jit(jax.vmap(run)), tp, ctx.seed)
        lab = [f"chain {c} step {s} first draw" for c in range(C) for s in range(n)] + [f"chain {c} step {s} second draw" for c in range(C) for s in range(n)]
        one_to_one(ctx, f"serial-C{C}-n{n}-b{b}", inf, lab, f"serial stepping, {C} chains, {n} steps, batches of {b}")
        ctx.count(transitions=m)
    ctx.sample({"draws": tp.S, "decisions": len(lab)})


def group(ctx):
    for C, n, bs, b in itertools.product((1, 2), (1, 4), (1, 2, 3, 100), (0,)):
        if not ctx.thorough and (C, n) in ((1, 1), (2, 1)) and bs != 1:
            continue
        if not ctx.thorough and C == 1 and n > 1 and bs != 2:
            continue
        d = 2
        flow = stubs.UniformFlow(d)

        def build(target, key):
            res = stubs.step_resources(NFProposal(flow, n_NFproposal_batch_size=bs), LogPDF(target, n_dims=d), C, d, n)
            s = TakeGroupSteps("logpdf", "kernel", "state", ["p", "l", "a"], n, chain_batch_size=b)
            s(key, res, jnp.full((C, d), -1.0), {"a": 0.0})
            return res

        prop = lambda key: build(lambda x, data: 0.0 * jnp.sum(x), key)["P"].data.reshape(-1)
        acc = lambda key: build(lambda x, data: jnp.where(x[0] < -0.5, 0.0, -0.7), key)["A"].data.reshape(-1)
        tp, _ = T.discover(prop)
        k = f"group-C{C}-n{n}-bs{bs}"
        inf, D, m = influence(jax.jit(jax.vmap(prop)), tp, ctx.seed)
        lab = [f"proposal of chain {c} step {s} dim {j}" for c in range(C) for s in range(n) for j in range(d)]
        own = one_to_one(ctx, k, inf, lab, f"flow proposals, {C} chains, {n} steps, internal batch {bs}")
        # acceptance: start from tapes whose accept draws all reject, change one at a time
        accd = [i for i, (u, s) in enumerate(inf.items()) if not s]
        tp2, _ = T.discover(acc)
        base = np.full(tp2.S, 2**32 - 2**10, np.uint32)
        tapes = np.repeat(base[None], tp2.S + 1, 0)
        for i in range(tp2.S):
            tapes[i + 1, i] = 2**20
        A = np.asarray(jax.jit(jax.vmap(acc))(tp2.keys(tapes))).reshape(-1, C, n)
        if not ctx.check((A[0] == 0).all(), k + ":base", "acceptance with u close to 1 and ratio exp(-0.7)"):
            continue
        words = [(nid, w) for nid, nn in tp2.slots for w in range(nn)]
        hit = {}
        for i, u in enumerate(words):
            ch = np.argwhere(A[i + 1] != A[0])
            if not len(ch):
                continue
            chains = set(ch[:, 0].tolist())
            ctx.check(len(chains) == 1, k + ":acc-chains", f"one draw decides the acceptance of chains {sorted(chains)}")
            first = (int(ch[0, 0]), int(ch[:, 1].min()))
            hit.setdefault(first, []).append(u)
            ctx.check(not inf.get(u), k + ":acc-prop", f"one draw decides both a proposal and the acceptance of chain {first[0]} step {first[1]}")
        for c, s in itertools.product(range(C), range(n)):
            ctx.check((c, s) in hit, k + ":acc-own", f"chain {c} step {s} has no acceptance draw of its own", found=sorted(hit))
        ctx.count(transitions=m + len(tapes))
    ctx.sample({"draws": tp.S})


def kernels(ctx):
    ks = {
        "GRW": GaussianRandomWalk(0.7), "MALA": MALA(0.7), "HMC-full": HMC(jnp.array([[1.3, 0.2], [0.2, 0.7]]), 0.3, 3),
        "HMC-diag": HMC(jnp.diag(jnp.array([1.3, 0.7])), 0.3, 2), "GRW-3d": GaussianRandomWalk(0.7),
    }
    for nm, k in ks.items():
        d = 3 if "3d" in nm else 2
        x0 = jnp.full((d,), 0.25)
        flat = lambda x, data: 0.0 * jnp.sum(x)
        drop = lambda x, data: jnp.where(jnp.all(x == x0), 0.0, -0.9) + 0.0 * jnp.sum(x)
        prop = lambda key: k.kernel(key, x0, flat(x0, {}), flat, {})[0]
        acc = lambda key: jnp.asarray(k.kernel(key, x0, drop(x0, {}), drop, {})[2], float).reshape(1)
        tp, _ = T.discover(prop)
        ip, D, m1 = influence(jax.jit(jax.vmap(prop)), tp, ctx.seed, n_base=4, n_alt=4)
        ia, A, m2 = influence(jax.jit(jax.vmap(acc)), tp, ctx.seed, n_base=24, n_alt=8)
        P = {u for u, s in ip.items() if s}
        Q = {u for u, s in ia.items() if s}
        ctx.check(len(Q) >= 1, nm + ":noacc", "no draw decides acceptance")
        ctx.check(not (P & Q), nm + ":reuse", f"{nm}: one draw decides both the proposal and its acceptance")
        ctx.check(len(P) >= d, nm + ":rank", f"{nm}: only {len(P)} independent draws for {d} proposal coordinates")
        ctx.check(set().union(*[ip[u] for u in P]) == set(range(d)), nm + ":coord", f"{nm}: a proposal coordinate is not random")
        ctx.count(states=len(ip), transitions=m1 + m2, traces=1)
        ctx.sample({nm: {"proposal draws": len(P), "acceptance draws": len(Q)}})


def tempering(ctx):
    for C, nt, n, training in itertools.product((1, 2), (2, 3, 4), (1, 2), (True, False)):
        if not ctx.thorough and ((nt, n) in ((2, 1), (4, 2)) or (C == 1 and nt != 4)):
            continue
        d = n + 2  # tag + shift register
        tags = np.arange(C * nt).reshape(C, nt).astype(np.float32)

        def run(key, mode=0):
            ll = (lambda x, data: 0.0 * x[0]) if mode == 0 else (lambda x, data: data["tab"][jnp.round(x[0]).astype(int)])
            tab = jnp.asarray(np.tile(np.linspace(0, 0.9, nt)[::-1] * 1.0, C))
            res = {
                "pdf": TemperedPDF(ll, lambda x, data: 0.0, n_dims=d), "kernel": stubs.DrawKernel(),
                "tp": Buffer("tp", (C, nt - 1, d), 1), "temps": Buffer("temps", (nt,), 0), "state": State({"training": training}),
            }
            x = jnp.zeros((C, nt, d)).at[:, :, 0].set(tags)
            res["tp"].data = x[:, 1:]
            res["temps"].data = jnp.asarray(np.linspace(1.0, 4.0, nt))
            s = ParallelTempering(n, "pdf", "kernel", ["tp", "temps"], "state")
            _, res, pos = s(key, res, x[:, 0], {"tab": tab})
            return jnp.concatenate([pos[:, None], res["tp"].data], 1)

        k = f"pt-C{C}-T{nt}-n{n}-{training}"

        def draws(key):  # draws seen by each walker, ordered by tag
            o = run(key, 0)
            order = jnp.argsort(o[:, :, 0], axis=1)
            return jnp.take_along_axis(o, order[:, :, None], 1)[:, :, -n:].reshape(-1)

        tp, _ = T.discover(draws)
        inf, D, m = influence(jax.jit(jax.vmap(draws)), tp, ctx.seed)
        lab = [f"kernel draw of chain {c} temperature {t} step {s}" for c in range(C) for t in range(nt) for s in range(n)]
        one_to_one(ctx, k, inf, lab, "parallel tempering")
        # swaps: every pattern per chain from swap draws only, separately per chain
        perm = lambda key: run(key, 1)[:, :, 0].reshape(-1)
        free = [i for i, (u, s) in enumerate(inf.items()) if not s]
        words = list(inf)
        sel = {}
        bases = []
        rs = np.random.RandomState(1)
        for _ in range(6):
            bases.append(rs.choice(np.array([2**20, 2**32 - 2**10], np.uint64), size=tp.S).astype(np.uint32))
        tapes = []
        for bt in bases:
            tapes.append(bt)
            for i in range(tp.S):
                t = bt.copy()
                t[i] = 2**20 if bt[i] > 2**31 else 2**32 - 2**10
                tapes.append(t)
        O = np.asarray(jax.jit(jax.vmap(perm))(tp.keys(np.array(tapes)))).reshape(len(bases), tp.S + 1, C, nt)
        swapd = {}
        for i in range(tp.S):
            ch = np.argwhere(O[:, i + 1] != O[:, 0])
            if len(ch):
                cs = set(ch[:, 1].tolist())
                ctx.check(len(cs) == 1, k + ":swap-chains", f"one draw decides swaps in chains {sorted(cs)}")
                ctx.check(not inf[words[i]], k + ":swap-kernel", "one draw decides both a kernel step and a swap")
                swapd.setdefault(min(cs), []).append(i)
        for c in range(C):
            ctx.check(len(swapd.get(c, [])) == nt - 1, k + ":swap-own", f"chain {c} has {len(swapd.get(c, []))} swap draws for {nt - 1} adjacent pairs")
        # every accept/reject pattern of the chain's pairs is reachable
        for c in range(C):
            ii = swapd.get(c, [])
            g = T.product_grid([[2**20, 2**32 - 2**10]] * len(ii))
            t = np.repeat(bases[0][None], len(g), 0)
            t[:, ii] = g
            o = np.asarray(jax.jit(jax.vmap(perm))(tp.keys(t))).reshape(len(g), C, nt)[:, c]
            ctx.check(len(np.unique(o, axis=0)) == 2 ** (nt - 1), k + ":patterns", f"only {len(np.unique(o, axis=0))} of {2 ** (nt - 1)} swap patterns reachable")
            ctx.count(transitions=len(g))
        ctx.count(transitions=m + len(tapes))
    ctx.sample({"draws": tp.S, "swap_draws": {str(c): len(v) for c, v in swapd.items()}})


def training(ctx):
    """Example choice and each epoch's shuffle have their own draws."""
    for N, E, bs in ((6, 3, 2), (5, 2, 2)):
        def once(key):
            stubs.LOG.clear()
            m = stubs.RecModel(1)
            buf = Buffer("d", (2, 4, 1), 1)
            buf.data = jnp.arange(8.0).reshape(2, 4, 1)
            opt = Optimizer.__new__(Optimizer)
            opt.optim = opt.optim_state = None
            res = {"m": m, "d": buf, "o": opt}
            s = TrainModel("m", "d", "o", n_epochs=E, batch_size=bs, n_max_examples=N, history_window=4)
            k2, res, _ = s(key, res, jnp.zeros((2, 1)), {})
            per = N // bs
            L = np.array(stubs.LOG).reshape(E, per * bs)
            return L, k2

        tp, rec = T.discover(lambda k: jnp.asarray(once(k)[0]))
        units = []
        b = 0
        for nid, n in tp.slots:
            units.append((nid, list(range(b, b + n))))
            b += n
        rs = np.random.RandomState(ctx.seed)
        owners = {}
        for base_i in range(3):
            base = rs.randint(0, 2**32, size=tp.S, dtype=np.uint64).astype(np.uint32)
            D0, _ = once(tp.key(base))
            D1, _ = once(tp.key(base))
            ctx.check(np.array_equal(D0, D1), f"train-N{N}:det", "two trainings with the same key see different batches")
            for nid, cols in units:
                ch = np.zeros(E, bool)
                for a in range(3):
                    t = base.copy()
                    t[cols] = rs.randint(0, 2**32, size=len(cols), dtype=np.uint64).astype(np.uint32)
                    ch |= (once(tp.key(t))[0] != D0).any(1)
                    ctx.count(transitions=1)
                owners.setdefault(nid, np.zeros(E, bool))
                owners[nid] |= ch
        single = {}
        for nid, ch in owners.items():
            if ch.sum() == 1:
                single.setdefault(int(np.flatnonzero(ch)[0]), []).append(nid)
            elif ch.any():
                ctx.check(ch.all(), f"train-N{N}:partial", f"one draw decides the batches of epochs {np.flatnonzero(ch).tolist()} but not of all")
        ctx.check(sorted(single) == list(range(E)), f"train-N{N}:own", f"only epochs {sorted(single)} of {E} have a shuffle of their own")
        ctx.check(sum(ch.all() and E > 1 for ch in owners.values()) <= 1, f"train-N{N}:shared", "more than the choice of examples is shared by all epochs")
        ctx.count(states=len(units), traces=1)
        ctx.sample({"draw keys": len(units), "per epoch": {str(k): len(v) for k, v in single.items()}})


def adam(ctx):
    for C, n, d in ((1, 3, 2), (3, 2, 1)) + (((3, 3, 2),) if ctx.thorough else ()):
        def run(key):
            s = AdamOptimization(lambda x, data: -jnp.sum((x - data["m"]) ** 2), n_steps=n, learning_rate=0.1, noise_level=2.0)
            return s(key, {}, jnp.ones((C, d)) * jnp.arange(1.0, C + 1)[:, None], {"m": 0.3})[2].reshape(-1)

        tp, _ = T.discover(run)
        inf, D, m = influence(lambda ks: np.stack([np.asarray(run(k)) for k in ks]), tp, ctx.seed, n_base=2, n_alt=2)
        chains = {}
        for u, s in inf.items():
            cs = {i // d for i in s}
            ctx.check(len(cs) <= 1, f"adam-C{C}-n{n}", f"one draw moves chains {sorted(cs)}")
            for c in cs:
                chains.setdefault(c, set()).add(u)
        for c in range(C):
            ctx.check(len(chains.get(c, ())) >= n, f"adam-C{C}-n{n}:own", f"chain {c} has {len(chains.get(c, ()))} draws for {n} steps")
        ctx.count(states=len(inf), transitions=m, traces=1)
    ctx.sample({"draws": tp.S})


# ---- whole runs -----------------------------------------------------------

class Mark(Strategy):
    """Runs a strategy and remembers which draws it made and which keys it split."""

    def __init__(self, inner, name, rec, spl, log):
        self.inner, self.name, self.rec, self.spl, self.log = inner, name, rec, spl, log

    def __call__(self, key, resources, pos, data):
        jax.effects_barrier()
        a, b = len(self.rec), len(self.spl)
        kin = T.key_id(key)
        key, resources, pos = self.inner(key, resources, pos, data)
        jax.block_until_ready(pos)
        jax.effects_barrier()
        self.log.append((self.name, kin, T.key_id(key), {i for i, _ in self.rec[a:]}, set(self.spl[b:])))
        return key, resources, pos


def analyse(ctx, k, log):
    for (n1, ki, ko, dr, sp) in log:
        ctx.check(ko not in dr and ko not in sp, k + f":{n1}:stale", f"{n1} hands on a key it has itself drawn from or split", name=n1)
        ctx.count(transitions=1)
    # a key that is drawn from must not also have children: with counter-based generators
    # the children are a function of the numbers drawn
    for i, p in enumerate(log):
        for j, q in enumerate(log):
            both = p[3] & q[4]
            ctx.check(not both, k + f":{p[0]}/{q[0]}:drawn-and-split", f"{len(both)} keys that {p[0]} (call {i}) draws from are also split by {q[0]} (call {j})")
    for (a, b) in itertools.combinations(range(len(log)), 2):
        both = log[a][3] & log[b][3]
        ctx.check(not both, k + f":{log[a][0]}+{log[b][0]}:reuse", f"{len(both)} draws of {log[a][0]} (call {a}) are drawn again by {log[b][0]} (call {b})")
        both = log[a][4] & log[b][4]
        ctx.check(not both, k + f":{log[a][0]}+{log[b][0]}:resplit", f"{log[a][0]} (call {a}) and {log[b][0]} (call {b}) split the same key")


def target(x, data):
    return -0.5 * jnp.sum((x - data["m"]) ** 2)


DATA = {"m": 0.4}


def kit(n_dims=2, C=2):
    flow = MaskedCouplingRQSpline(n_dims, 1, [4], 3, jax.random.PRNGKey(0))
    res = {
        "logpdf": LogPDF(target, n_dims=n_dims), "pdf": TemperedPDF(target, lambda x, d: 0.0, n_dims=n_dims),
        "kernel": MALA(0.5), "nf": NFProposal(flow, n_NFproposal_batch_size=2), "model": flow, "opt": Optimizer(flow),
        "P": Buffer("P", (C, 40, n_dims), 1), "L": Buffer("L", (C, 40), 1), "A": Buffer("A", (C, 40), 1),
        "hist": Buffer("hist", (C, 6, n_dims), 1), "tp": Buffer("tp", (C, 2, n_dims), 1), "temps": Buffer("temps", (3,), 0),
        "state": State({"p": "P", "l": "L", "a": "A", "training": True}), "loss": Buffer("loss", (40,), 0),
    }
    res["hist"].data = jnp.asarray(np.random.RandomState(0).randn(C, 6, n_dims).astype(np.float32))
    res["tp"].data = jnp.asarray(np.random.RandomState(1).randn(C, 2, n_dims).astype(np.float32))
    res["temps"].data = jnp.array([1.0, 2.0, 5.0])
    st = {
        "serial": TakeSerialSteps("logpdf", "kernel", "state", ["p", "l", "a"], 2),
        "group": TakeGroupSteps("logpdf", "nf", "state", ["p", "l", "a"], 3),
        "pt": ParallelTempering(2, "pdf", "kernel", ["tp", "temps"], "state"),
        "train": TrainModel("model", "hist", "opt", "loss", n_epochs=2, batch_size=4, n_max_examples=8),
        "adam": AdamOptimization(target, n_steps=2),
    }
    return res, st


KINDS = ("serial", "group", "pt", "train", "adam")


def sequences(firsts):
    def part(ctx):
        rec, spl = [], []
        tp = T.Tape(record=rec, splits=spl)
        x0 = jnp.array([[0.1, 0.2], [0.5, -0.3]])
        for first in firsts:
            # first, then every kind in turn (each pair with `first`), then first again
            order = [first] + [k for k in KINDS if k != first] + [first]
            log = []
            res, st = kit()
            s = Sampler(2, 2, tp.key(), resources=res, strategies={n: Mark(v, n, rec, spl, log) for n, v in st.items()}, strategy_order=order)
            if mc.guard(ctx, f"seq-{first}:exception", lambda: (s.sample(x0, DATA), 1)[1]) is None:
                continue
            analyse(ctx, "seq-" + first, log)
            ctx.count(states=len(log), traces=1)
        ctx.sample({"order": order, "draws": [len(l[3]) for l in log]})
    return part


def bundle(which):
    def part(ctx):
        rec, spl = [], []
        tp = T.Tape(record=rec, splits=spl)
        kw = dict(n_chains=2, n_dims=2, logpdf=target, n_local_steps=2, n_global_steps=3, n_training_loops=2, n_production_loops=2, n_epochs=2,
                  rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=1, batch_size=4, n_max_examples=8, n_NFproposal_batch_size=2)
        cls = {"plain": RQSpline_MALA_Bundle, "pt": RQSpline_MALA_PT_Bundle}[which]
        if which == "pt":
            kw.update(n_temperatures=3, n_tempered_steps=2)
        b = cls(jax.random.PRNGKey(1), **kw)
        log = []
        x0 = jnp.array([[0.1, 0.2], [0.5, -0.3]])
        s = Sampler(2, 2, tp.key(), resources=b.resources, strategies={n: Mark(v, n, rec, spl, log) for n, v in b.strategies.items()}, strategy_order=b.strategy_order)
        s.sample(x0, DATA)
        analyse(ctx, "bundle-" + which, log)
        ctx.count(states=len(log), traces=1)
        ctx.sample({"bundle": which, "calls": len(log), "draws": sum(len(l[3]) for l in log)})
        # determinism of whole runs with ordinary keys, and sensitivity to the key
        outs = []
        for seed in (5, 5, 6):
            b = cls(jax.random.PRNGKey(1), **kw)
            s = Sampler(2, 2, jax.random.PRNGKey(seed), resource_strategy_bundles=b)
            s.sample(x0, DATA)
            outs.append({n: np.asarray(r.data) for n, r in s.resources.items() if isinstance(r, Buffer)})
        for n in outs[0]:
            ctx.check(np.array_equal(outs[0][n], outs[1][n], equal_nan=True), f"bundle-{which}:det:{n}", f"two identical runs differ in {n}")
        for n in ("positions_training", "positions_production", "log_prob_production"):
            ctx.check(not np.array_equal(outs[0][n], outs[2][n]), f"bundle-{which}:key:{n}", f"{n} does not depend on the key")
        ctx.count(traces=3)
    return part


PARTS = {
    "serial": (serial, {}),
    "group": (group, {}),
    "kernels": (kernels, {}),
    "tempering": (tempering, {}),
    "training": (training, {}),
    "adam": (adam, {}),
    "seq_a": (sequences(["serial", "group"]), {}),
    "seq_b": (sequences(["pt", "adam"]), {}),
    "seq_c": (sequences(["train"]), {}),
    "bundle_plain": (bundle("plain"), {}),
    "bundle_pt": (bundle("pt"), {}),
}
