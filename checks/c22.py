"""C22: training never changes what is not trainable."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

import fmlib
import mc
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.common import Composable, Gaussian, MaskedCouplingLayer
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.optimizer import Optimizer
from flowMC.strategy.train_model import TrainModel

LEVEL = "model_checking"
BOUNDS = ("breadth first over training histories: every sequence up to depth 2-3 of train() calls over an alphabet of (data set, learning rate, epochs, batch size) with "
          "the library's own Optimizer, for spline flow, RealNVP and flow matching with default, fixed, learnable, constructor-given and composite base distributions; "
          "the same after to_precision and through the TrainModel strategy; every reached model is inspected, and the gradient of its loss; plus a few large configurations, against changes gated on a size")
ASSUMPTIONS = ["the masks of a flow are those of its MaskedCouplingLayer nodes (their public mask property)"]

quiet = lambda: contextlib.redirect_stdout(io.StringIO())
KEY = jax.random.PRNGKey(3)


def sets(d):
    """Two data sets with different locations, scales and correlations; sizes 7 and 12."""
    rng = np.random.default_rng(d)
    A = np.tril(rng.normal(size=(d, d))) + 2 * np.eye(d)
    return [jnp.asarray(rng.normal(size=(7, d)) @ A.T + 3 * np.arange(1, d + 1)), jnp.asarray(rng.normal(size=(12, d)) * 0.2 - 40.0)]


def masks(m):
    is_m = lambda x: isinstance(x, MaskedCouplingLayer)
    return [np.asarray(x.mask) for x in jax.tree_util.tree_leaves(m, is_leaf=is_m) if is_m(x)]


def gaussians(m):
    is_g = lambda x: isinstance(x, Gaussian)
    return [x for x in jax.tree_util.tree_leaves(m, is_leaf=is_g) if is_g(x)]


def static(m):
    """Everything that is not a floating-point array: dimensions, bounds, structure, boolean masks."""
    arr, rest = eqx.partition(m, eqx.is_inexact_array)
    return rest


def same_static(a, b):
    la, ta = jax.tree_util.tree_flatten(static(a))
    lb, tb = jax.tree_util.tree_flatten(static(b))
    if ta != tb or len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if isinstance(x, (jax.Array, np.ndarray)):
            if x.dtype != y.dtype or not np.array_equal(x, y):
                return False
        elif x is not y and x != y:
            return False
    return True


def shapes(m):
    return [(a.shape, str(a.dtype)) for a in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array))]


def inspect(ctx, k, h, m0, m, data, tol=1e-5):
    """m was reached from m0 by history h, last trained on data (None: mean and covariance as before)."""
    if data is None:
        mean, cov = np.asarray(m0.data_mean), np.asarray(m0.data_cov)
    else:
        x = np.asarray(data, np.float64)
        mean, cov = x.mean(0), np.atleast_2d(np.cov(x.T))
    sc = 1 + np.abs(mean).max()
    ctx.check(np.shape(m.data_mean) == mean.shape and np.allclose(m.data_mean, mean, atol=tol * sc), k + ":mean", f"after {h} data_mean is {np.asarray(m.data_mean).tolist()}, that of the training data is {mean.tolist()}")
    ctx.check(np.shape(m.data_cov) == cov.shape and np.allclose(m.data_cov, cov, rtol=100 * tol, atol=tol * sc), k + ":cov", f"after {h} data_cov is {np.asarray(m.data_cov).tolist()}, that of the training data is {cov.tolist()}")
    ma, mb = masks(m0), masks(m)
    ok = len(ma) == len(mb) and all(x.shape == y.shape and np.isin(np.asarray(y, float), (0.0, 1.0)).all() and np.array_equal(np.asarray(x, float), np.asarray(y, float)) for x, y in zip(ma, mb))
    ctx.check(ok, k + ":mask", f"after {h} the coupling masks are {[y.tolist() for y in mb]}, were {[x.tolist() for x in ma]}")
    ctx.check(same_static(m0, m) and m.n_features == m0.n_features, k + ":static", f"training ({h}) changes dimensions, bounds or structure of the model")
    ctx.check(shapes(m0) == shapes(m), k + ":shapes", f"training ({h}) changes parameter shapes")
    ga, gb = gaussians(m0), gaussians(m)
    if ctx.check(len(ga) == len(gb) and all(x.learnable == y.learnable for x, y in zip(ga, gb)), k + ":base-kind", f"training ({h}) changes the kind of the base distribution"):
        for i, (x, y) in enumerate(zip(ga, gb)):
            if not x.learnable:
                ctx.check(np.array_equal(x.mean, y.mean) and np.array_equal(x.cov, y.cov), k + ":base", f"after {h} part {i} of the base distribution, not learnable, has mean {np.asarray(y.mean).tolist()} and covariance {np.asarray(y.cov).tolist()}, had {np.asarray(x.mean).tolist()}, {np.asarray(x.cov).tolist()}")
            elif data is not None:
                ctx.check(not np.array_equal(x.mean, y.mean) and not np.array_equal(x.cov, y.cov), k + ":learnable", f"after {h} part {i} of the base distribution, learnable, has not been trained")


def nonzero(g):
    return g is not None and bool(np.abs(np.nan_to_num(np.asarray(g, float), nan=1.0)).max() > 0)


@eqx.filter_jit
def _grad(m, *a):
    return m.loss_fn(*[x[:5] for x in a])[1]


def gradient(ctx, k, h, m, loss_args):
    g = _grad(m, *loss_args)
    for n in ("_data_mean", "_data_cov"):
        ctx.check(not nonzero(getattr(g, n, None)), k + f":grad{n}", f"the training loss has a gradient with respect to {n[1:]} (after {h})")
    for i, (a, b) in enumerate(zip(gaussians(m), gaussians(g))):
        got = nonzero(b._mean), nonzero(b._cov)
        ctx.check(got == (a.learnable, a.learnable), k + ":grad-base", f"learnable={a.learnable}: the loss has a gradient for base mean, covariance: {got} (after {h}, part {i})")
    is_m = lambda x: isinstance(x, MaskedCouplingLayer)
    for x in jax.tree_util.tree_leaves(g, is_leaf=is_m):
        if is_m(x):
            ctx.check(not nonzero(getattr(x, "_mask", None)), k + ":grad-mask", f"the training loss has a gradient with respect to a coupling mask (after {h})")
    ctx.count(transitions=1)


def bfs(ctx, k, model, datas, ops, depth, train, loss_args, fresh):
    """Every sequence of training calls.  ops: (data set, lr, epochs, batch size)."""
    opts = {lr: fresh(lr) for lr in sorted({o[1] for o in ops})}
    inspect(ctx, k, "construction", model, model, None)
    gradient(ctx, k, "construction", model, loss_args(datas[0]))
    front = [((), model, {lr: o.optim_state for lr, o in opts.items()})]
    n = 0
    for _ in range(depth):
        nxt = []
        for h, m, st in front:
            for op in ops:
                i, lr, E, B = op
                r = mc.guard(ctx, k + ":exception", train, m, jax.random.PRNGKey(len(h) + 5 * ctx.seed), datas[i], opts[lr].optim, st[lr], E, B)
                if r is None:
                    return
                _, m2, s2, losses = r
                hh = h + (op,)
                if not np.isfinite(np.asarray(losses)).all():
                    ctx.bump("histories with non-finite losses")
                inspect(ctx, k, str(hh), model, m2, datas[i] if np.isfinite(np.asarray(losses)).any() else None)
                if len(hh) == depth:
                    gradient(ctx, k, str(hh), m2, loss_args(datas[i]))
                moved = [not np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array)), jax.tree_util.tree_leaves(eqx.filter(m2, eqx.is_inexact_array)))]
                ctx.check(sum(moved) > 2, k + ":trained", f"training ({hh}) changes no parameter")
                n += 1
                ctx.count(states=1, transitions=E * max(1, len(datas[i]) // B), traces=1)
                nxt.append((hh, m2, {**st, lr: s2}))
        front = nxt
    ctx.sample({"model": k, "histories": n, "last": str(hh)})


def nf_train(m, key, x, optim, st, E, B):
    with quiet():
        return m.train(key, x, optim, st, E, B, verbose=False)


def bases(d):
    g = lambda n, learn, s: Gaussian(jnp.linspace(0.3, 0.6, n) * s, jnp.eye(n) * (1 + s) + 0.1, learnable=learn)
    out = {"default": None, "fixed": g(d, False, 1.0), "learnable": g(d, True, 1.0)}
    if d > 1:
        out["composite"] = Composable([g(1, True, 1.0), g(d - 1, False, 2.0)], {"a": (0, 1), "b": (1, d)})
    return out


def nf(name, d, base, **mk):
    def part(ctx):
        datas = sets(d)
        for bn, bd in bases(d).items():
            if bn not in base and not ctx.thorough:
                continue
            if name == "rq":
                m = MaskedCouplingRQSpline(d, 2 if base[0] == "default" or ctx.thorough else 1, [5], 4, KEY, spline_range=(-3.0, 3.0), base_dist=bd, **{a: b(d) for a, b in mk.items()})
            else:
                m = RealNVP(d, 2, 5, KEY, base_dist=bd, **{a: b(d) for a, b in mk.items()})
            ops = [(0, 1e-3, 1, 3), (1, 0.3, 2, 100), (1, 1e-3, 1, 3)]
            depth = 2
            if ctx.thorough:
                ops.append((0, 0.3, 3, 7))
                depth = 3
            bfs(ctx, f"{name}-{d}d-{bn}", m, datas, ops, depth, nf_train, lambda x: (x,), lambda lr: Optimizer(m, learning_rate=lr, momentum=0.5 if lr > 0.1 else 0.9))
    return part


def precision(x64):
    def part(ctx):
        for name, pr, d in itertools.product(("rq", "nvp"), ("float32", "float16", "bfloat16") if not x64 else ("float64",), (2, 3)):
            if d == 3 and pr != "float32" and not ctx.thorough:
                continue
            m = MaskedCouplingRQSpline(d, 2, [5], 4, KEY) if name == "rq" else RealNVP(d, 2, 5, KEY)
            k = f"precision-{name}-{pr}-{d}d"
            p = mc.guard(ctx, k + ":exception", m.to_precision, pr)
            if p is None:
                continue
            dt = {str(a.dtype) for a in jax.tree_util.tree_leaves(eqx.filter(p, eqx.is_inexact_array))}
            ctx.check(dt == {pr}, k + ":dtype", f"to_precision({pr!r}) leaves parameters of type {dt}")
            ma, mb = masks(m), masks(p)
            ctx.check(all(np.array_equal(np.asarray(a, float), np.asarray(b, float)) for a, b in zip(ma, mb)) and len(ma) == len(mb), k + ":mask", "to_precision changes the masks")
            ctx.count(states=1, traces=1)
            if pr in ("float16", "bfloat16"):
                continue  # the spline and linear algebra are not available in half precision
            x = sets(d)[0]
            o = Optimizer(p, learning_rate=0.1)
            r = mc.guard(ctx, k + ":exception", nf_train, p, KEY, x, o.optim, o.optim_state, 2, 3)
            if r is not None:
                inspect(ctx, k, f"to_precision({pr}) and two epochs", p, r[1], x)
                ctx.count(states=1, transitions=4, traces=1)
        for bad in ("float8", "", "int32"):
            try:
                RealNVP(2, 1, 3, KEY).to_precision(bad)
                ctx.violation(f"precision-bad-{bad}", f"to_precision({bad!r}) does not raise a ValueError")
            except ValueError:
                ctx.count(states=1)
    return part


def fm(d):
    def part(ctx):
        rng = np.random.default_rng(5)
        datas = sets(d)
        full = [(jnp.asarray(rng.normal(size=x.shape)), x, jnp.asarray(np.linspace(0, 1, len(x)))[:, None]) for x in datas]
        cfg = {"default": {}, "given": dict(mean=jnp.arange(1.0, d + 1), cov=jnp.eye(d) * 2.5)}
        for cn, kw in cfg.items():
            m = fmlib.model(d, (5,), **kw)
            ops = [(0, 1e-3, 1, 3), (1, 0.3, 2, 100), (1, 1e-3, 1, 3)]
            opts = {lr: Optimizer(m, learning_rate=lr) for lr in (1e-3, 0.3)}
            k = f"fm-{d}d-{cn}"
            inspect(ctx, k, "construction", m, m, None)
            if kw:
                ctx.check(np.array_equal(m.data_mean, kw["mean"]) and np.array_equal(m.data_cov, kw["cov"]), k + ":given", "the model does not keep the mean and covariance it is given")
            front = [((), m, {lr: o.optim_state for lr, o in opts.items()})]
            for _ in range(2 if not ctx.thorough else 3):
                nxt = []
                for h, mm, st in front:
                    for op in ops:
                        i, lr, E, B = op
                        r = mc.guard(ctx, k + ":exception", fmlib.train, mm, jax.random.PRNGKey(len(h)), full[i], opts[lr].optim, st[lr], E, B)
                        if r is None:
                            return
                        hh = h + (op,)
                        inspect(ctx, k, str(hh), m, r[1], datas[i])
                        x0, x1, t = full[i]
                        gradient(ctx, k, str(hh), r[1], (x1, t, x0))
                        moved = any(not np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(eqx.filter(mm.solver, eqx.is_inexact_array)), jax.tree_util.tree_leaves(eqx.filter(r[1].solver, eqx.is_inexact_array))))
                        ctx.check(moved, k + ":trained", f"training ({hh}) changes no parameter of the network")
                        nxt.append((hh, r[1], {**st, lr: r[2]}))
                        ctx.count(states=1, transitions=E * max(1, len(datas[i]) // B), traces=1)
                front = nxt
        ctx.sample({"model": k, "last": str(hh)})
    return part


def strategy(name):
    return lambda ctx: through_strategy(ctx, name)


def through_strategy(ctx, name):
    """The same through the training strategy: the statistics are those of points of the buffer."""
    d = 2
    for C, W in ((1, 3), (2, 2)):
        fixed = Gaussian(jnp.ones(d) * 0.4, jnp.eye(d) * 2.0)
        m = MaskedCouplingRQSpline(d, 2, [5], 4, KEY, base_dist=fixed) if name == "rq" else RealNVP(d, 2, 5, KEY, base_dist=fixed)
        buf = Buffer("data", (C, 6, d), 1)
        opt = Optimizer(m, learning_rate=0.2)
        res = {"m": m, "data": buf, "opt": opt, "loss": Buffer("loss", (9,), 0)}
        s = TrainModel("m", "data", "opt", loss_buffer_name="loss", n_epochs=3, batch_size=400, n_max_examples=1000, history_window=W)
        rng = np.random.default_rng(0)
        key = jax.random.PRNGKey(ctx.seed)
        filled = 0
        for call in range(3):
            a = np.array(buf.data)
            a[:, filled : filled + 2] = rng.normal(size=(C, 2, d)) * (1 + call) + 10 * call
            filled += 2
            buf.data = jnp.asarray(a)
            with quiet():
                out = mc.guard(ctx, f"strategy-{name}-C{C}:exception", s, key, res, jnp.zeros((C, d)), {})
            if out is None:
                break
            key, res, _ = out
            k = f"strategy-{name}-C{C}"
            win = np.asarray(buf.data)[:, max(0, filled - W) : filled].reshape(-1, d)
            mean = np.asarray(res["m"].data_mean)
            # a thousand draws with replacement out of the window: mean inside, covariance no wider
            ctx.check((mean >= win.min(0) - 1e-4).all() and (mean <= win.max(0) + 1e-4).all() and np.allclose(mean, win.mean(0), atol=0.25 * np.ptp(win, 0).max()), k + ":mean", f"after training call {call + 1} data_mean is {mean.tolist()}, the window's mean is {win.mean(0).tolist()}")
            ctx.check(np.allclose(np.diag(res["m"].data_cov), win.var(0), rtol=0.25), k + ":cov", f"after training call {call + 1} the variances are {np.diag(res['m'].data_cov).tolist()}, those of the window {win.var(0).tolist()}")
            g0, g1 = gaussians(m), gaussians(res["m"])
            ctx.check(len(g0) == len(g1) and all(np.array_equal(x.mean, y.mean) and np.array_equal(x.cov, y.cov) for x, y in zip(g0, g1)), k + ":base", "the training strategy changes a base distribution that is not learnable")
            ctx.check([x.tolist() for x in masks(res["m"])] == [x.tolist() for x in masks(m)] and same_static(m, res["m"]), k + ":mask", "the training strategy changes masks, dimensions or bounds")
            ctx.count(states=1, transitions=3, traces=1)
    ctx.sample({"calls": 3, "last": k})


def large(ctx):
    """Many dimensions, layers, epochs, batches and training calls"""
    d = 9
    rng = np.random.default_rng(3)
    A = np.tril(rng.normal(size=(d, d))) + 2 * np.eye(d)
    datas = [jnp.asarray(rng.normal(size=(150, d)) @ A.T + np.arange(d)), jnp.asarray(rng.normal(size=(70, d)) * 0.3 - 4.0)]
    for name in ("rq", "nvp"):
        base = Composable([Gaussian(jnp.ones(4) * 0.2, jnp.eye(4) * 1.5), Gaussian(jnp.zeros(5), jnp.eye(5), learnable=True)], {"a": (0, 4), "b": (4, 9)})
        m = MaskedCouplingRQSpline(d, 6, [16, 8], 9, KEY, spline_range=(-4.0, 4.0), base_dist=base) if name == "rq" else RealNVP(d, 7, 20, KEY, base_dist=base)
        o = Optimizer(m, learning_rate=1e-3)
        st, cur = o.optim_state, m
        k = f"large-{name}"
        for n, (i, E, B) in enumerate([(0, 12, 64), (1, 1, 1000), (0, 1, 7), (1, 3, 33), (0, 1, 150)] + [(1, 1, 35)] * 8):
            r = mc.guard(ctx, k + ":exception", nf_train, cur, jax.random.PRNGKey(n), datas[i], o.optim, st, E, B)
            if r is None:
                break
            cur, st, losses = r[1], r[2], np.asarray(r[3])
            inspect(ctx, k, f"{n + 1} calls", m, cur, datas[i] if np.isfinite(losses).any() else None)
            ctx.count(states=1, transitions=E * max(1, len(datas[i]) // B), traces=1)
        gradient(ctx, k, "13 calls", cur, (datas[0],))
    m = fmlib.model(d, (16, 8))
    o = Optimizer(m, learning_rate=1e-3)
    for n, (i, E, B) in enumerate([(0, 12, 64), (1, 3, 1000)]):
        x = datas[i]
        full = (jnp.asarray(rng.normal(size=x.shape)), x, jnp.asarray(np.linspace(0, 1, len(x)))[:, None])
        r = mc.guard(ctx, "large-fm:exception", fmlib.train, m, KEY, full, o.optim, o.optim_state, E, B)
        if r is not None:
            inspect(ctx, "large-fm", f"training on set {i}", m, r[1], x)
            gradient(ctx, "large-fm", f"training on set {i}", r[1], (x, full[2], full[0]))
            ctx.count(states=1, transitions=E * max(1, len(x) // B), traces=1)
    ctx.sample({"dimension": d, "rows": [150, 70], "calls": 13})


PARTS = {
    "large": (large, {"x64": True}),
    "strategy_rq": (strategy("rq"), {}),
    "rq2l": (nf("rq", 2, ("learnable", "composite")), {"x64": True}),
    "strategy_nvp": (strategy("nvp"), {}),
    "rq1": (nf("rq", 1, ("default",)), {"x64": True}),
    "rq2": (nf("rq", 2, ("default", "fixed")), {"x64": True}),
    "rq3": (nf("rq", 3, ("default",), data_mean=lambda d: jnp.arange(1.0, d + 1), data_cov=lambda d: 2.0 * jnp.eye(d)), {"x64": True}),
    "nvp1": (nf("nvp", 1, ("default",)), {"x64": True}),
    "nvp2": (nf("nvp", 2, ("default", "fixed")), {"x64": True}),
    "nvp2l": (nf("nvp", 2, ("learnable", "composite")), {"x64": True}),
    "nvp3": (nf("nvp", 3, ("default",), data_mean=lambda d: jnp.arange(1.0, d + 1), data_cov=lambda d: 2.0 * jnp.eye(d)), {"x64": True}),
    "fm1": (fm(1), {"x64": True}),
    "fm2": (fm(2), {"x64": True}),
    "precision": (precision(False), {}),
    "precision64": (precision(True), {"x64": True}),
}
