"""Exhaustive Metropolis-Hastings validity check for a local kernel, black box.

For every state x of a lattice and every proposal draw z of a lattice (the draws are
controlled through the tape PRNG) we obtain the proposal y = Y(x, z) by *revealing* it:
the target handed to the kernel is L(.) + c * [. != x], a piecewise-constant boost that
leaves every gradient unchanged; with a huge c every proposal is accepted.

The density of the proposal is then q(y|x) = phi(z) / |dY/dz|, the reverse draw z' is
the solution of Y(y, z') = x, and detailed balance demands acceptance with
probability min(1, r), r = pi(y) q(x|y) / (pi(x) q(y|x)).  With the boost
c = log(1/2) - log r the acceptance probability must be exactly 1/2, which is decided by
enumerating the acceptance draw on a grid plus two values 1/2 (1 +- tol).
"""

import jax
import jax.numpy as jnp
import numpy as np

import tape as T

REVEAL = 1.0e6


class KernelUnderTest:
    def __init__(self, kernel, L, data, d):
        self.kernel, self.L, self.data, self.d = kernel, L, data, d
        x0 = jnp.zeros(d) + 0.3
        self.tape, self.rec = T.discover(
            lambda k: kernel.kernel(k, x0, L(x0, data), L, data)
        )
        # one flat slot per random word
        self.S = self.tape.S
        kern, LL = kernel, L

        def one(key, x, c):
            def boosted(y, dat):
                return LL(y, dat) + c * jnp.any(y != x)

            p, lp, acc = kern.kernel(key, x, LL(x, data), boosted, data)
            if jnp.shape(p) != x.shape:  # not a state: shown as NaN
                p = jnp.full(x.shape, jnp.nan)
            return p, jnp.reshape(lp, (-1,))[0], jnp.all(acc)

        self._f = jax.jit(jax.vmap(one))
        self.n_exec = 0

    def run(self, tapes, x, c):
        """tapes (N,S) uint32, x (N,d), c (N,) -> y (N,d), lp (N,), acc (N,)"""
        x = np.asarray(x, float)
        c = np.broadcast_to(np.asarray(c, float), (len(x),))
        n = len(x)
        m = 1 << max(4, int(np.ceil(np.log2(n))))  # pad: few distinct shapes to compile
        if m > n and m <= 1 << 17:
            pad = m - n
            tapes = np.concatenate([tapes, np.repeat(tapes[:1], pad, 0)])
            x = np.concatenate([x, np.repeat(x[:1], pad, 0)])
            c = np.concatenate([c, np.repeat(c[:1], pad, 0)])
        p, lp, acc = self._f(self.tape.keys(tapes), jnp.asarray(x), jnp.asarray(c))
        self.n_exec += n
        return np.asarray(p)[:n], np.asarray(lp)[:n], np.asarray(acc)[:n].astype(bool)

    def classify(self, contexts):
        """Which words drive the proposal, which only the decision."""
        S, d = self.S, self.d
        vals = T.quantiles(5)
        prop, dec = set(), set()
        for base in contexts:
            for s in range(S):
                t = np.repeat(np.full((1, S), base, np.uint32), 5, 0)
                t[:, s] = vals
                for x in (np.full(d, 0.3), np.full(d, -0.7)):
                    X = np.repeat(x[None], 5, 0)
                    y, _, acc = self.run(t, X, REVEAL)
                    if np.ptp(y, axis=0).max() > 1e-12:
                        prop.add(s)
                    else:
                        cs = np.arange(-6, 6.01, 0.5)
                        tt = np.repeat(t, len(cs), 0)
                        XX = np.repeat(X, len(cs), 0)
                        _, _, a = self.run(tt, XX, np.tile(cs, 5))
                        a = a.reshape(5, len(cs))
                        if (a != a[:1]).any():
                            dec.add(s)
        self.prop = sorted(prop)
        self.dec = sorted(dec - prop)
        return self.prop, self.dec

    def tapes_from_z(self, z, ubits=None):
        t = np.full((len(z), self.S), T.quantiles(1)[0], np.uint32)
        t[:, self.prop] = T.z_to_bits(z)
        if ubits is not None:
            t[:, self.dec] = np.asarray(ubits)[:, None]
        return t

    def Y(self, x, z):
        y, lp, acc = self.run(self.tapes_from_z(z), x, REVEAL)
        return y, lp, acc

    def jac(self, x, z, h=1e-3):
        """dY/dz by central differences: (N,d,d)"""
        n, d = x.shape
        cols = []
        for j in range(d):
            e = np.zeros(d)
            e[j] = h
            zp = T.bits_to_z(T.z_to_bits(z + e))
            zm = T.bits_to_z(T.z_to_bits(z - e))
            yp = self.Y(x, zp)[0]
            ym = self.Y(x, zm)[0]
            cols.append((yp - ym) / (zp[:, j] - zm[:, j])[:, None])
        return np.stack(cols, -1)


def check_detailed_balance(ctx, name, K, xs, zs, target_x=None, tol=3e-4, M=16, affine=False):
    """xs (Nx,d) states, zs (Nz,d) proposal draws; all pairs are explored."""
    d = K.d
    data = K.data
    Lv = jax.jit(jax.vmap(lambda x: K.L(x, data)))
    L = lambda x: np.asarray(Lv(jnp.asarray(x)))
    X = np.repeat(xs, len(zs), 0)
    Z = T.bits_to_z(T.z_to_bits(np.tile(zs, (len(xs), 1))))
    Yv, lpY, acc = K.Y(X, Z)
    if not ctx.check(acc.all(), f"{name}:reveal", "a proposal of overwhelming density was rejected", x=X[~acc][:2], z=Z[~acc][:2]):
        return
    ok = np.isfinite(Yv).all(1)
    ctx.check(ok.all(), f"{name}:finite", "proposal is not finite", x=X[~ok][:2], z=Z[~ok][:2])
    # log prob reported for an accepted move is the target's at the new position
    e = np.abs(lpY - REVEAL - L(Yv))
    ctx.check((e <= 1e-6 * (1 + np.abs(L(Yv)))).all(), f"{name}:logprob", "log-probability returned for an accepted move is not the target's value there", worst=float(e.max()))

    J = K.jac(X, Z)
    # reverse draw by Newton from -z
    zr = -Z.copy()
    for it in range(40):
        f = K.Y(Yv, zr)[0] - X
        err = np.abs(f).max(1)
        if (err < 1e-8).all():
            break
        Jr = K.jac(Yv, zr)
        step = np.linalg.solve(Jr + 1e-12 * np.eye(d), f[..., None])[..., 0]
        step = np.clip(step, -1.5, 1.5)
        zr = np.clip(zr - np.where(err[:, None] > 1e-9, step, 0), -5.5, 5.5)
    f = np.abs(K.Y(Yv, zr)[0] - X).max(1)
    Jr = K.jac(Yv, zr)
    detF, detR = np.abs(np.linalg.det(J)), np.abs(np.linalg.det(Jr))
    scale = np.abs(Yv - X).max(1) + 1e-3
    good = (f < 1e-6 * (1 + scale)) & (detF ** (1 / d) > 1e-9) & (detR ** (1 / d) > 1e-9) & (np.abs(zr).max(1) < 5)
    ctx.bump("pairs", len(X))
    ctx.bump("pairs_with_reverse_draw", int(good.sum()))
    if not ctx.check(good.mean() > 0.6, f"{name}:reversible", "most moves have no reverse move under the proposal", fraction=float(good.mean())):
        return
    X, Z, Yv, zr, detF, detR = X[good], Z[good], Yv[good], zr[good], detF[good], detR[good]
    dL = L(Yv) - L(X)
    logr = dL - 0.5 * (zr**2).sum(1) + 0.5 * (Z**2).sum(1) - np.log(detR) + np.log(detF)

    n = len(X)
    ub = T.quantiles(M)
    near = [np.uint32(2**31 * (1 - tol)), np.uint32(2**31 * (1 + tol))]
    grid = np.concatenate([ub, near])
    rep = len(grid)
    XX, ZZ = np.repeat(X, rep, 0), np.repeat(Z, rep, 0)
    t = K.tapes_from_z(ZZ, np.tile(grid, n))
    for alpha in (0.5, 0.25):
        c = np.log(alpha) - logr
        y, lp, a = K.run(t, XX, np.repeat(c, rep))
        A = a.reshape(n, rep)
        cnt = A[:, :M].sum(1)
        bad = cnt != round(alpha * M)
        if alpha == 0.5:
            bad |= A[:, M].astype(int) + A[:, M + 1].astype(int) != 1
        if bad.any():
            i = int(np.argmax(bad))
            ctx.violation(
                f"{name}:ratio",
                f"acceptance probability differs from min(1, pi(y)q(x|y)/pi(x)q(y|x)): wanted {alpha}, got {cnt[i]}/{M} "
                f"for the move {X[i].tolist()} -> {Yv[i].tolist()} ({int(bad.sum())} of {n} moves)",
                x=X[i], y=Yv[i], log_r=float(logr[i]), boost=float(c[i]), n_bad=int(bad.sum()), n=n,
            )
        # returned state is x or y, with its own log probability
        moved = a
        yy = np.repeat(Yv, rep, 0)
        LX, LY = np.repeat(L(X), rep), np.repeat(L(Yv), rep) + np.repeat(c, rep)
        # (batches of different sizes may round differently; the rejected state is untouched)
        ctx.check((np.abs(y[moved] - yy[moved]) <= 1e-9 * (1 + np.abs(yy[moved]))).all() and (y[~moved] == XX[~moved]).all(), f"{name}:state", "returned position is neither the proposal (when accepted) nor the current position (when rejected)")
        e = np.abs(lp - np.where(moved, LY, LX))
        ctx.check((e <= 1e-6 * (1 + np.abs(LY))).all(), f"{name}:logprob2", "returned log-probability is not the target's value at the returned position", worst=float(e.max()))
    # very unlikely moves: accepted just below the threshold of the draw, rejected just above it
    e = 22
    words = np.round(2.0 ** (32 - e) * np.array([1 - 2.0**-6, 1 + 2.0**-6]))
    words = np.concatenate([words, 2.0**32 - words]).astype(np.uint32)  # u or 1 - u may decide
    _, _, a = K.run(K.tapes_from_z(np.repeat(Z, 4, 0), np.tile(words, n)), np.repeat(X, 4, 0), np.repeat(-e * np.log(2.0) - logr, 4))
    A = a.reshape(n, 4)
    bad = (A != [True, False, False, False]).any(1) & (A != [False, False, True, False]).any(1)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.violation(f"{name}:tail", f"a move of acceptance probability 2^-{e} is not accepted for exactly the uniform draws below it: {X[i].tolist()} -> {Yv[i].tolist()}: for draws just below 2^-{e}, just above it, just above 1 - 2^-{e} and just below it, accepted: {A[i].tolist()} ({int(bad.sum())} of {n} moves)")
    # natural acceptance (no boost)
    y, lp, a = K.run(t, XX, 0.0)
    A = a.reshape(n, rep)[:, :M].sum(1)
    want = np.minimum(1, np.exp(np.minimum(logr, 0))) * M
    bad = np.abs(A - want) > 0.5 + 1e-2
    if bad.any():
        i = int(np.argmax(bad))
        ctx.violation(f"{name}:natural", f"natural acceptance count {A[i]}/{M}, wanted {want[i]:.3f}", x=X[i], y=Yv[i])
    ctx.count(states=len(xs), transitions=K.n_exec, traces=3 * n * rep)
    for i in (0, n // 2):
        ctx.sample({"kernel": name, "x": X[i], "y": Yv[i], "log_r_expected": float(logr[i]), "accepted_at_boost_half": int(M // 2)})
    return X, Z, Yv, detF


def grid(vals, d):
    g = np.meshgrid(*[np.asarray(vals, float)] * d, indexing="ij")
    return np.stack([a.reshape(-1) for a in g], 1)


# ---- target alphabet; all depend on data so that data must reach the target ------------

def star(d, scale=1.0, shift=0.0):
    """A few points of a d-dimensional space: both signs of a ramp, an alternation, single axes."""
    r = np.linspace(-1.0, 1.0, d)
    a = 0.7 * (-1.0) ** np.arange(d)
    one = np.eye(d)
    return scale * np.stack([r, -0.6 * r + 0.2, a, 1.3 * one[0] - 0.1, 1.1 * one[-1] + 0.15]) + shift


def gauss1(x, data):
    return -0.5 * jnp.sum((x - data["m"]) ** 2) / data["s"] ** 2


def quartic(x, data):
    return -0.25 * jnp.sum(x**4) / data["s"] + 0.3 * jnp.sum(x * data["m"])


def bimodal(x, data):
    a = -0.5 * jnp.sum((x - data["m"] - 1.2) ** 2) / data["s"] ** 2
    b = -0.5 * jnp.sum((x + 1.0) ** 2)
    return jnp.logaddexp(a, b + jnp.log(0.6))


def corr(x, data):
    n = x.shape[0]
    P = 1.3 * jnp.eye(n) + 0.5 * (jnp.ones((n, n)) - jnp.eye(n)) + jnp.diag(0.4 * jnp.arange(n))
    r = x - data["m"]
    return -0.5 * r @ P @ r / data["s"]


def banana(x, data):
    return -0.5 * (x[0] - data["m"]) ** 2 - 0.5 * jnp.sum((x[1:] - 0.5 * x[0] ** 2) ** 2) / data["s"]


DATA = {"m": 0.4, "s": 0.8}


def steep(x, data):
    return -40.0 * jnp.sum((x - 0.2 * data["m"]) ** 4) / data["s"]


def far(o):
    """The same law with an unnormalised density of a very different magnitude."""
    def far_gauss(x, data):
        return gauss1(x, data) + o
    far_gauss.__name__ = f"gauss1{o:+g}"
    return far_gauss


def flat(x, data):
    return 0.0 * jnp.sum(x) + data["m"]


def wide(x, data):
    return -0.5 * jnp.sum((x - 30.0 * data["m"]) ** 2) / (50.0 * data["s"]) ** 2


# ---- states of zero density -------------------------------------------------------------

def hole(x, data):
    return jnp.where(jnp.all(x < 0.8), -0.5 * jnp.sum(x**2) * data["s"], -jnp.inf)


def island(x, data):
    return jnp.where(jnp.any(jnp.abs(x) > 1.1), -jnp.inf, 0.3 * jnp.sum(x) / data["s"])


def check_edges(ctx, name, kernel, d, xs, target, m=9):
    """One step from every state, zero-density states included, for every value of every
    draw: an accepted move has positive density and reports its log-density, a rejected one
    changes nothing, and a state of zero density is left at the first proposal inside the
    support, whatever the acceptance draw."""
    L = lambda x: target(x, DATA)
    def run(k, x):
        p, lp, acc = kernel.kernel(k, x, L(x), target, DATA)
        return p if jnp.shape(p) == x.shape else jnp.full(x.shape, jnp.nan), jnp.reshape(lp, (-1,))[0], jnp.all(acc)

    tp, _ = T.discover(lambda k: run(k, jnp.asarray(xs[0])))
    vals = np.concatenate([[T.BITS0], T.quantiles(m), [T.BITSMAX]]).astype(np.uint64)
    assert tp.S <= d + 3, "too many draws"
    axes = []
    for s in range(tp.S):
        inner = (vals != 0) & (vals != 2**32 - 1)
        axes.append(np.where(inner, vals + np.uint64(1000003 * (s + 1)), vals).astype(np.uint32))
    tapes = T.product_grid(axes)
    f = jax.jit(jax.vmap(run, in_axes=(0, None)))
    keys = tp.keys(tapes)
    fL = jax.jit(jax.vmap(L))
    K = KernelUnderTest(kernel, gauss1, DATA, d)
    prop, _ = K.classify([T.quantiles(3)[0], T.quantiles(3)[2]])
    rest = [s for s in range(tp.S) if s not in prop]
    # executions that share every proposal word are neighbours in this order
    order = np.lexsort([tapes[:, s] for s in rest + prop]) if rest else np.arange(len(tapes))
    group = int(np.prod([len(axes[s]) for s in rest])) if rest else 1
    assert K.S == tp.S
    seen = [0, 0, 0]
    for x in xs:
        y, lp, a = [np.asarray(v) for v in f(keys, jnp.asarray(x))]
        lp, a = lp.reshape(len(y)), a.reshape(len(y)).astype(bool)
        ly, lx = np.asarray(fL(jnp.asarray(y))), float(L(jnp.asarray(x)))
        moved = (y != x).any(1)
        ctx.check((ly[moved] > -np.inf).all(), f"{name}:enters", "a move to a state of zero density was accepted", x=x, y=y[moved & ~(ly > -np.inf)][:1])
        ctx.check((moved <= a).all(), f"{name}:flag", "the chain moved although the flag says rejected", x=x)
        same = (lp == ly) | (np.abs(lp - ly) <= 1e-9 * (1 + np.abs(ly)))
        ctx.check(same.all(), f"{name}:edge-logprob", f"returned log-density differs from the target's at the returned position (start log-density {lx})", x=x, y=y[~same][:1], lp=lp[~same][:1])
        if lx == -np.inf:
            seen[0] += int(moved.sum())
            seen[1] += int((~moved).sum())
            g = moved[order].reshape(-1, group)
            ctx.check((g == g[:, :1]).all(), f"{name}:leaves", "from a state of zero density a proposal inside the support is accepted for some acceptance draws only", x=x)
        else:
            seen[2] += int(moved.sum())
        ctx.count(transitions=len(y), traces=len(y), states=1)
    ctx.bump("moves_out_of_zero_density", seen[0])
    ctx.check(seen[0] > 0 or not any(float(L(jnp.asarray(x))) == -np.inf for x in xs), f"{name}:stuck", "a state of zero density is never left")
    ctx.reach(seen[2] > 0, "moves")
    return seen
