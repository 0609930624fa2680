"""Shared by C09 and C10: run a bundle with spy components under a monitor."""
import itertools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import mc
import stubs
from flowMC.resource.buffers import Buffer
from flowMC.Sampler import Sampler
from flowMC.strategy.base import Strategy

TRAIN = ["positions_training", "log_prob_training", "local_accs_training", "global_accs_training"]
PROD = ["positions_production", "log_prob_production", "local_accs_production", "global_accs_production"]
SPAN = 100  # codes per chain, unless the configuration asks for more


def snap(res):
    s = {n: np.array(r.data) for n, r in res.items() if isinstance(r, Buffer)}
    s["model.w"] = np.array(res["model"].w)
    s["global.w"] = np.array(res["global_sampler"].model.w)
    s["opt.n"] = np.array(res["optimizer"].optim_state["n"])
    s["opt.log"] = np.array(res["optimizer"].optim_state["log"])
    s["loss.cursor"] = np.array(res["loss_buffer"].cursor)
    s["state"] = dict(res["sampler_state"].data)
    return s


class Mon(Strategy):
    def __init__(self, inner, name, log):
        self.inner, self.name, self.log = inner, name, log

    def __call__(self, key, res, pos, data):
        if not self.log:
            self.log.append(("start", snap(res), np.array(pos)))
        key, res, pos = self.inner(key, res, pos, data)
        self.log.append((self.name, snap(res), np.array(pos)))
        return key, res, pos


class LoadedBundle:
    pass


def run(cls, cfg, n_dims=2, seed=0, logpdf=None, **kw):
    C = cfg["C"]
    lp = logpdf or (lambda x, data: 0.0 * x[0])
    b = cls(
        jax.random.PRNGKey(1), C, n_dims, lp, cfg["nl"], cfg["ng"], cfg["T"], cfg["P"], cfg["E"], chain_batch_size=cfg.get("b", 0),
        rq_spline_hidden_units=[2], rq_spline_n_bins=2, rq_spline_n_layers=1, batch_size=cfg.get("bs", 300), n_max_examples=cfg.get("nmax", 900),
        local_thinning=cfg["tl"], global_thinning=cfg["tg"], **kw,
    )
    span = cfg.get("span", SPAN)
    n_codes = span * C
    m = stubs.HistModel(n_dims, n_codes)
    r = b.resources
    r["model"] = m
    r["global_sampler"] = eqx.tree_at(lambda g: g.model, r["global_sampler"], m)
    opt = stubs.rec_optim(n_codes, max(1, cfg["T"] * cfg["E"] * max(1, cfg.get("nmax", 900) // cfg.get("bs", 300)) + 2))
    r["optimizer"].optim = opt
    r["optimizer"].optim_state = opt.init()
    log = []
    x0 = np.zeros((C, n_dims), np.float32)
    x0[:, 0] = span * np.arange(C) + 1
    s = Sampler(n_dims, C, jax.random.PRNGKey(seed), resources=r, strategies={n: Mon(v, n, log) for n, v in b.strategies.items()}, strategy_order=b.strategy_order)
    with stubs.spy_kernels():
        s.sample(jnp.asarray(x0), {"a": 0.5})
    return log, x0, s


def reference(cfg, x0, pt=None):
    """What the recorded histories must be; pt = number of walkers above the cold one, tempered steps."""
    C = cfg["C"]
    bs, nmax = cfg.get("bs", 300), cfg.get("nmax", 900)
    per_epoch = max(1, nmax // bs)
    cnt = x0[:, 0].astype(float).copy()
    if pt:
        hot = np.repeat(cnt[:, None], pt[0], 1)
    out = {}
    w = 0.0
    losses = []
    hists = []  # history available to each training
    segs = []
    for phase, loops in (("T", cfg["T"]), ("P", cfg["P"])):
        pos, lp, la, ga = [], [], [], []
        for _ in range(loops):
            if pt:
                every = np.concatenate([cnt[:, None], hot], 1) + pt[1]
                # all log-likelihoods are equal: every adjacent swap is accepted, in ladder order
                for j in range(pt[0]):
                    every[:, [j, j + 1]] = every[:, [j + 1, j]]
                cnt, hot = every[:, 0], every[:, 1:]
            ks = list(range(1, cfg["nl"] + 1, cfg["tl"]))
            for k in ks:
                pos.append((cnt + k, -1.0))
                lp.append(cnt + k + 0.25)
                la.append(1.0)
                ga.append(-np.inf)
            cnt = cnt + ks[-1]
            if phase == "T":
                hists.append([p[0] for p in pos])
                for e in range(cfg["E"]):
                    w += per_epoch
                    losses.append(-(w - 1))
            ks = list(range(1, cfg["ng"] + 1, cfg["tg"]))
            for k in ks:
                pos.append((cnt + k, w))
                lp.append(cnt + k + 0.75)
                la.append(-np.inf)
                ga.append(0.0)
            cnt = cnt + ks[-1]
        out[phase] = (pos, lp, la, ga)
    out["w"], out["losses"], out["hists"], out["final"] = w, losses, hists, cnt
    out["steps"] = int(cfg["T"] * cfg["E"] * per_epoch)
    if pt:
        out["hot"] = hot
    return out


def verify(ctx, key, cfg, log, x0, sampler, ref, window=100):
    C = cfg["C"]
    fin = log[-1][1]
    for names, ph in ((TRAIN, "T"), (PROD, "P")):
        pos, lp, la, ga = ref[ph]
        n = len(pos)
        want = np.zeros((C, n, 2))
        for i, (c0, c1) in enumerate(pos):
            want[:, i, 0] = c0
            want[:, i, 1] = c1
        wl = np.array(lp).reshape(n, C).T
        wa = np.repeat(np.array(la).reshape(1, n), C, 0)
        wg = np.repeat(np.array(ga).reshape(1, n), C, 0)
        phase = "training" if ph == "T" else "production"
        for nm, g, wnt in zip(names, [fin[x] for x in names], [want, wl, wa, wg]):
            g = g[..., :2] if g.ndim == 3 else g
            if g.shape != wnt.shape:
                ctx.violation(f"{key}:{nm}:shape", f"the {phase} run records {n} entries per chain but {nm} has shape {g.shape}", cfg=cfg)
            elif not np.allclose(g, wnt, equal_nan=True):
                i = np.argwhere(~(np.isclose(g, wnt)))[0]
                ctx.violation(f"{key}:{nm}", f"{nm}{i.tolist()} is {g[tuple(i)]} at the end of the run, must be {wnt[tuple(i)]}", cfg=cfg, got=g, want=wnt)
    # no entry written twice, production leaves training things alone
    prod = False
    for (a, sa, _), (nm, sb, _) in zip(log[:-1], log[1:]):
        for n in TRAIN + PROD:
            A, B = sa[n], sb[n]
            ch = (A != B) & np.isfinite(A)
            if ch.any():
                ctx.violation(f"{key}:{n}:twice", f"{nm} overwrites entry {np.argwhere(ch)[0].tolist()} of {n}", cfg=cfg)
        started = any(np.isfinite(sb[n]).any() for n in PROD)
        if started:
            for n in TRAIN + ["model.w", "global.w", "opt.n", "opt.log", "loss_buffer", "loss.cursor"] + (["temperatures"] if "temperatures" in sb else []):
                if not np.array_equal(sa[n], sb[n]):
                    ctx.violation(f"{key}:production:{n}", f"{nm} changes {n} during production", cfg=cfg)
    # training calls
    lb = fin["loss_buffer"]
    ctx.check(np.allclose(lb, ref["losses"]) if lb.shape == (len(ref["losses"]),) else False, f"{key}:losses", f"loss buffer {lb.tolist()} must be {ref['losses']}", cfg=cfg)
    ctx.check(int(fin["loss.cursor"]) == len(ref["losses"]), f"{key}:loss-cursor", f"loss cursor {fin['loss.cursor']} must be {len(ref['losses'])}", cfg=cfg)
    ctx.check(int(fin["opt.n"]) == ref["steps"], f"{key}:opt", f"optimizer has seen {int(fin['opt.n'])} updates, must be {ref['steps']}", cfg=cfg)
    ctx.check(np.all(fin["model.w"] == ref["w"]), f"{key}:model", f"model has {fin['model.w'][0]} updates, must be {ref['w']}", cfg=cfg)
    ctx.check(np.all(fin["global.w"] == ref["w"]), f"{key}:flow", f"flow used for proposals has {fin['global.w'][0]} updates, must be {ref['w']}", cfg=cfg)
    if ref["hists"]:
        bat = stubs.batches({"n": fin["opt.n"], "log": fin["opt.log"]}, cfg.get("bs", 300) if cfg.get("nmax", 900) >= cfg.get("bs", 300) else cfg.get("nmax", 900))
        per = len(bat) // len(ref["hists"])
        for i, h in enumerate(ref["hists"]):
            allowed = set()
            for v in h[-window:]:
                allowed |= {int(x) for x in v}
            used = set().union(*[set(b) for b in bat[i * per:(i + 1) * per]]) if per else set()
            ctx.check(used <= allowed, f"{key}:hist{i}", f"training {i} used points {sorted(used - allowed)[:5]} that are not in the history recorded so far", cfg=cfg)
            # drawn with replacement: only expected where missing one by chance is out of the question
            if len(allowed) * np.exp(-cfg.get("nmax", 900) / len(allowed)) < 1e-6:
                ctx.bump("complete_training_sets")
                ctx.check(len(used) == len(allowed), f"{key}:hist{i}:all", f"training {i} used only {len(used)} of {len(allowed)} recorded points", cfg=cfg)
    pos = np.array(log[-1][2])
    ctx.check(np.allclose(pos[:, 0], ref["final"]), f"{key}:final", f"final position {pos[:, 0].tolist()} must be {ref['final'].tolist()}", cfg=cfg)
    st = fin["state"]
    ctx.check(st["training"] in (False, 0), f"{key}:flag", "still marked as training at the end")
    ctx.count(states=len(log), transitions=len(log) - 1, traces=1)
