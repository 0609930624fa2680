"""Shared by C16-C18, C22: parameter states of the real flows and the bijection oracle."""
import contextlib
import io
import itertools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np


def nf_fwd(m, x):
    return m.forward(x)


def nf_inv(m, x):
    return m.inverse(x)


def cpl_fwd(m, x):
    return m.forward(x, None)


def cpl_inv(m, x):
    return m.inverse(x, None)


@eqx.filter_jit
def _eval(model, X, fwd, inv, jac):
    """fwd, inv: module-level functions (model, x) -> (y, logdet); one compilation per model structure"""
    tot = lambda l: jnp.sum(jnp.asarray(l))

    def one(x):
        y, l = fwd(model, x)
        xb, lb = inv(model, y)
        z, m = inv(model, x)
        xf, mf = fwd(model, z)
        J = jax.jacfwd(lambda v: fwd(model, v)[0])(x) if jac else jnp.eye(len(x))
        return y, tot(l), xb, tot(lb), z, tot(m), xf, tot(mf), jnp.linalg.slogdet(J)[1] if jac else tot(l), J

    return jax.vmap(one)(X)


def oracle(ctx, key, model, X, tol=1e-8, jac=True, sign=None, fixed=None, detail=None, fwd=nf_fwd, inv=nf_inv):
    """X (N, d) points used on both sides of the map.

    Checks round trips both ways, opposite log-determinants, log|det J| = log-determinant
    (by forward-mode differentiation), unchanged coordinates `fixed`, and increasing
    diagonal `sign` if asked.  Returns (y, logdet, z, logdet_inverse, J)."""
    X = jnp.asarray(X)
    y, l, xb, lb, z, m, xf, mf, sl, J = [np.asarray(a) for a in _eval(model, X, fwd, inv, jac)]
    dg = np.diagonal(J, axis1=1, axis2=2)
    X = np.asarray(X)
    scale = 1 + np.abs(X).max(1)
    d = detail or {}

    def report(bad, what, k):
        i = int(np.argmax(bad))
        if bad.any():
            ctx.violation(f"{key}:{k}", f"{what} at x = {X[i].tolist()}", x=X[i], forward=y[i], back=xb[i], logdet=l[i], logdet_inverse=lb[i], inverse=z[i], logdet_true=sl[i], **d)

    fin = np.isfinite(y).all(1) & np.isfinite(l) & np.isfinite(z).all(1) & np.isfinite(m)
    report(~fin, "non-finite output", "finite")
    report(~(np.abs(xb - X).max(1) <= tol * scale), "inverse(forward(x)) differs from x", "roundtrip")
    report(~(np.abs(xf - X).max(1) <= tol * scale), "forward(inverse(x)) differs from x", "roundtrip-inverse")
    report(~(np.abs(l + lb) <= tol * (1 + np.abs(l))), "log-determinants of forward and inverse are not opposite", "opposite")
    report(~(np.abs(m + mf) <= tol * (1 + np.abs(m))), "log-determinants of inverse and forward are not opposite", "opposite-inverse")
    if jac:
        report(~(np.abs(l - sl) <= max(tol, 1e-7) * (1 + np.abs(sl))), "forward log-determinant is not log|det Jacobian|", "jacobian")
    if fixed is not None:
        f = np.asarray(fixed, bool)
        report((y[:, f] != X[:, f]).any(1) | (z[:, f] != X[:, f]).any(1), "a conditioning coordinate is changed", "fixed")
    if sign is not None and jac:
        report((dg[:, ~np.asarray(fixed, bool)] <= 0).any(1) if fixed is not None else (dg <= 0).any(1), "not increasing in a transformed coordinate", "increasing")
    ctx.count(states=len(X), transitions=4 * len(X))
    return y, l, z, m, J


def grid(d, levels):
    return np.array(list(itertools.product(levels, repeat=d)), float)


def trained_states(model, datas, lrs, depth, batch=None, limit=None):
    """Breadth first over training histories: every sequence of (data set, learning rate)
    one-epoch trainings up to `depth` with the library's own train() and Optimizer.
    Returns [(history, model)]."""
    from flowMC.resource.optimizer import Optimizer

    opts = {lr: Optimizer(model, learning_rate=lr) for lr in lrs}
    out = []
    frontier = [((), model, {lr: opts[lr].optim_state for lr in lrs})]
    key = jax.random.PRNGKey(11)
    for level in range(depth):
        nxt = []
        for h, m, st in frontier:
            for i, x in enumerate(datas):
                for lr in lrs:
                    with contextlib.redirect_stdout(io.StringIO()):
                        _, m2, st2, _ = m.train(key, x, opts[lr].optim, st[lr], 1, batch or len(x), verbose=False)
                    nxt.append((h + ((i, lr),), m2, {**st, lr: st2}))
        out += nxt
        frontier = nxt
    return [(h, m) for h, m, _ in out]


# ---- density of what sample() draws, from the draws themselves -----------------
# All functions take the model as an argument, so one compilation serves every model of the
# same structure; tapes with the same slots are shared for the same reason.

_REC = []
_RECTAPE = []
_TAPES = {}


@eqx.filter_jit
def _sample1(m, key, N):
    return m.sample(key, N)


@eqx.filter_jit
def _samples(m, keys, N):
    return jax.vmap(lambda k: m.sample(k, N))(keys)


@eqx.filter_jit
def _logps(m, x):
    return jax.vmap(m.log_prob)(x)


def discover(m, N):
    import tape as T

    if not _RECTAPE:
        _RECTAPE.append(T.Tape(record=_REC))
    _REC.clear()
    jax.block_until_ready(_sample1(m, _RECTAPE[0].key(), N))
    jax.effects_barrier()
    sizes = {}
    for i, n in _REC:
        sizes[i] = max(n, sizes.get(i, 0))
    slots = tuple(sizes.items())
    if slots not in _TAPES:
        _TAPES[slots] = T.Tape(slots=slots)
    return _TAPES[slots]


def draw_map(m, N, d):
    """Tape for m.sample(key, N) and which draw influences which sampled point (S, N)."""
    import tape as T

    tp = discover(m, N)
    base = np.full((1, tp.S), T.z_to_bits(0.3), np.uint32) + np.arange(tp.S, dtype=np.uint32)[None] * np.uint32(1000003)
    rows = np.repeat(base, tp.S + 1, 0)
    for s in range(tp.S):
        rows[s + 1, s] = T.z_to_bits(-1.1)
    o = np.asarray(_samples(m, tp.keys(rows), N))
    hit = (np.abs(o[1:] - o[:1]) > 1e-11 * (1 + np.abs(o[:1]))).any(-1)  # above the rounding of a batched product
    return tp, hit


def check_density(ctx, key, m, N, d, Z, tol=2e-3, h=1e-4, **detail):
    """For every row of Z (standard-normal values of the draws of point 0) compare m.log_prob at the
    sampled point with the density implied by the executed map from draws to points."""
    import tape as T

    tp, hit = draw_map(m, N, d)
    ctx.check((hit.sum(1) <= 1).all(), key + ":independent", f"one random draw influences several of the {N} sampled points: {hit.sum(1).tolist()}")
    ctx.check((hit.sum(0) == d).all(), key + ":draws", f"sampled points depend on {hit.sum(0).tolist()} draws, must be {d} each")
    slots = np.argwhere(hit[:, 0])[:, 0]
    if len(slots) != d:
        return
    base = np.full(tp.S, T.z_to_bits(0.4), np.uint32)
    rows = []
    for z in Z:
        for dz in [np.zeros(d)] + [k * h * np.eye(d)[j] for j in range(d) for k in (-1, 1)]:
            r = base.copy()
            r[slots] = T.z_to_bits(z + dz)
            rows.append(r)
    rows = np.array(rows)
    zz = T.bits_to_z(rows[:, slots]).reshape(len(Z), -1, d)
    x = np.asarray(_samples(m, tp.keys(rows), N))[:, 0].reshape(len(Z), -1, d)
    z0 = zz[:, 0]
    phi = (-0.5 * z0**2 - 0.5 * np.log(2 * np.pi)).sum(1)
    got = np.asarray(_logps(m, jnp.asarray(x[:, 0]))).reshape(len(Z))
    want = []
    # central differences; the one-sided ones count where a kink of the network is nearby
    for lo, hi in ((1, 2), (0, 2), (1, 0)):
        J = np.zeros((len(Z), d, d))
        for j in range(d):
            a = 0 if lo == 0 else 1 + 2 * j
            b = 0 if hi == 0 else 2 + 2 * j
            J[:, :, j] = (x[:, b] - x[:, a]) / (zz[:, b, j] - zz[:, a, j])[:, None]
        want.append(phi - np.linalg.slogdet(J)[1])
    want = np.array(want)
    bad = ~(np.abs(want - got) <= tol * (1 + np.abs(want))).any(0)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.violation(key + ":density", f"log_prob at the sampled point {x[i, 0].tolist()} is {got[i]}, the density it is drawn with is {want[0, i]}", draws=Z[i], **detail)
    ctx.count(states=len(Z), transitions=len(Z) * (1 + 2 * d), traces=len(Z))


def check_identical(ctx, key, m, N, d, Z):
    """Every sampled point is the same function of its own draws."""
    import tape as T

    tp, hit = draw_map(m, N, d)
    slots = [np.argwhere(hit[:, i])[:, 0] for i in range(N)]
    if any(len(s) != d for s in slots):
        return
    rows = np.zeros((len(Z), tp.S), np.uint32)
    for s in slots:
        rows[:, s] = T.z_to_bits(Z)
    o = np.asarray(_samples(m, tp.keys(rows), N))
    bad = np.abs(o - o[:, :1]).max((1, 2)) > 1e-9 * (1 + np.abs(o).max((1, 2)))
    ctx.check(not bad.any(), key + ":identical", "the sampled points are not the same function of their own draws", first=o[int(np.argmax(bad))])
    ctx.count(transitions=len(Z) * N)
