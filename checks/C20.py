"""Extrapolation, reshaping and resampling of arrays."""
import numpy as np

from verifkit.worker import Group

RULE = ('Arrays of random length, sign, spacing and law (constant, linear, '
        'log-linear, power law, oscillating), extension lengths and sizes; '
        'results are compared with the law continued in closed form; '
        'distinct by function, law, lengths and values.')


def seq(rng, n=None, law=None):
    """Samples following a law and the law itself, as a function of index."""
    n = int(rng.integers(4, 40)) if n is None else n
    law = ['const', 'lin', 'loglin', 'mixed'][rng.integers(4)] \
        if law is None else law
    a0, b = rng.normal(0, 3) or 1., rng.normal(0, 1)
    if law == 'const':
        return law, n, (lambda i: np.full(np.shape(i), a0))
    if law == 'lin':
        return law, n, (lambda i: a0 + b*np.asarray(i, float))
    if law == 'loglin':
        r = rng.uniform(0.8, 1.25)
        return law, n, (lambda i: a0*r**np.asarray(i, float))
    v = rng.uniform(0.5, 2., n)*np.sign(a0)
    return law, n, (lambda i: v[np.asarray(i)])


def case_1d(c):
    from triumvirate import _arrayops as A
    rng = c.rng
    law, n, f = seq(rng)
    m = int(rng.integers(0, 30))
    i = np.arange(n)
    a = f(i)
    kind = ['array', 'list', 'row'][rng.integers(3)]
    c.params(law=law, n=n, m=m, kind=kind, head=a[:3])
    arg = a.tolist() if kind == 'list' else a[None, :].copy() \
        if kind == 'row' else a.copy()
    ext = np.arange(-m, n + m)
    lo, hi = rng.normal(0, 1, 2)
    p = A.extrap_pad(arg, m, lo, hi)
    c.close(p, np.r_[np.full(m, lo), a, np.full(m, hi)], 'pad/1d', 0)
    ln = A.extrap_lin(arg, m)
    if law in ('const', 'lin'):
        c.close(ln, f(ext), 'lin/1d', 1e-11)
    else:
        d0, d1 = a[1] - a[0], a[-1] - a[-2]
        c.close(ln, np.r_[a[0] + d0*np.arange(-m, 0), a,
                          a[-1] + d1*np.arange(1, m + 1)], 'lin/1d', 1e-11)
    c.close(ln[m:m + n], a, 'keep/lin', 0)
    if (a[0]*a[1] > 0) and (a[-1]*a[-2] > 0):
        lg = A.extrap_loglin(arg, m)
        if law in ('const', 'loglin'):
            c.close(np.log(np.abs(lg)), np.log(np.abs(f(ext))), 'loglin/1d',
                    1e-9, atol=1e-9)
            c.check(np.all(np.sign(lg) == np.sign(a[0])), 'loglin/1d', 'sign')
        else:
            w = np.r_[a[0]*(a[0]/a[1])**np.arange(m, 0, -1), a,
                      a[-1]*(a[-1]/a[-2])**np.arange(1, m + 1)]
            c.close(np.log(np.abs(lg)), np.log(np.abs(w)), 'loglin/1d', 1e-9,
                    atol=1e-9)
        c.close(lg[m:m + n], a, 'keep/loglin', 0)
    elif a[0]*a[1] < 0 or a[-1]*a[-2] < 0:
        c.raises(lambda: A.extrap_loglin(arg, m), ValueError, 'reject/1d',
                 'mixed signs at the end')


def case_oscil(c):
    from triumvirate import _arrayops as A
    rng = c.rng
    n = int(rng.integers(16, 90))
    m = int(rng.integers(1, 30))
    t = np.arange(n)
    kind = ['peak', 'oscil', 'noise', 'diverge'][rng.integers(4)]
    sgn = rng.choice([-1., 1.])
    p = n*rng.uniform(0.35, 0.65)
    if kind == 'peak':
        a = np.where(t < p, rng.uniform(.05, .5)*(t - p),
                     -rng.uniform(.05, .5)*(t - p))
        a = sgn*np.exp(a)
    elif kind == 'oscil':
        a = np.exp(-np.abs(t - p)*rng.uniform(0.02, .2)) \
            * np.cos(t*rng.uniform(.1, 2.) + rng.uniform(0, 6))
    elif kind == 'noise':
        a = rng.normal(0, 1, n)
    else:
        a = sgn*np.exp(np.abs(t - p)*rng.uniform(.02, .2))
    c.params(kind=kind, n=n, m=m, head=a[:3])
    two = rng.random() < 0.3
    if two:
        a2 = np.outer(rng.uniform(.5, 2., n), a)
        mr, mc = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        nx = (mr, mc)
        out = A.extrap2d_loglin_oscil(a2.copy(), nx)
        c.check(out.shape == (n + 2*mr, n + 2*mc), 'shape/oscil2d',
                'shape %s' % (out.shape,))
        if out.shape == (n + 2*mr, n + 2*mc):
            c.close(out[mr:mr + n, mc:mc + n], a2, 'keep/oscil2d', 0)
            rows = np.array([A.extrap_loglin_oscil(r, mc) for r in a2])
            want = np.array([A.extrap_loglin_oscil(r, mr)
                             for r in rows.T]).T
            c.close(out, want, 'value/oscil2d', 1e-12)
        return
    out = A.extrap_loglin_oscil(a.copy(), m)
    if not c.check(out.shape == (n + 2*m,), 'shape/oscil', 'shape'):
        return
    c.close(out[m:m + n], a, 'keep/oscil', 0)
    left, right = out[:m + 1][::-1], out[m + n - 1:]
    for side, e in (('left', left), ('right', right)):
        c.check(np.isfinite(e).all(), 'finite/oscil', side + ' not finite')
        if e[0] == 0:
            continue
        r = e[1:]/e[:-1]
        ok = np.abs(e[:-1]) > 1e-290
        c.check(np.all(r[ok] >= 0) and np.all(r[ok] <= 1 + 1e-12),
                'decay/oscil', side + ' extension grows or changes sign')
        if ok.sum() > 1:
            c.check(np.ptp(r[ok]) < 1e-9, 'law/oscil',
                    side + ' extension is not log-linear')
        if kind == 'peak':
            want = a[0]/a[1] if side == 'left' else a[-1]/a[-2]
            c.close(r[0], want, 'law/oscil', 1e-10,
                    msg=side + ' ratio of a power law')
        if kind == 'diverge':
            c.close(r[0], 1., 'law/oscil', 1e-12,
                    msg=side + ' divergent tail not padded')


def nest(rng, mr, mc):
    """Extension lengths as given by callers."""
    if mr == mc and rng.random() < .5:
        return mr
    return (mr, mc) if rng.random() < .5 else [mr, mc]


def case_2d(c):
    from triumvirate import _arrayops as A
    rng = c.rng
    nr, nc = (int(v) for v in rng.integers(2, 15, 2))
    mr, mc = (int(v) for v in rng.integers(0, 12, 2))
    if rng.random() < .3:
        mc = mr
    nx = nest(rng, mr, mc)
    i, j = np.arange(-mr, nr + mr)[:, None], np.arange(-mc, nc + mc)[None, :]
    s = np.s_[mr:mr + nr, mc:mc + nc]
    p, q, r, t = rng.normal(0, 1, 4)
    lin = p + q*i + r*j + t*i*j
    g, h, k = rng.uniform(-.2, .2, 3)
    sg = rng.choice([-1, 1])
    log = sg*np.exp(g*i + h*j + k*0.1*i*j + p)
    c.params(shape=[nr, nc], n_ext=[mr, mc], as_=type(nx).__name__,
             head=[p, q, g, h])
    c.close(A.extrap2d_lin(lin[s].copy(), nx), lin, 'lin/2d', 1e-10)
    got = A.extrap2d_loglin(log[s].copy(), nx)
    c.close(np.log(np.abs(got)), np.log(np.abs(log)), 'loglin/2d', 1e-8,
            atol=1e-8)
    c.check(np.all(np.sign(got) == sg), 'loglin/2d', 'sign')
    a = rng.normal(0, 1, (nr, nc))
    l, u, lo, up = (rng.normal(0, 1, nr), rng.normal(0, 1, nr),
                    rng.normal(0, 1, nc), rng.normal(0, 1, nc))
    lo[0], lo[-1], up[0], up[-1] = l[0], u[0], l[-1], u[-1]
    if rng.random() < .3:
        v = float(rng.normal())
        args = (v, v, v, v)
        l, u, lo, up = np.full(nr, v), np.full(nr, v), np.full(nc, v), \
            np.full(nc, v)
    else:
        args = (l, u, lo, up)
    w = np.empty((nr + 2*mr, nc + 2*mc))
    w[s] = a
    w[mr:mr + nr, :mc], w[mr:mr + nr, mc + nc:] = l[:, None], u[:, None]
    w[:mr, mc:mc + nc], w[mr + nr:, mc:mc + nc] = lo, up
    w[:mr, :mc], w[:mr, mc + nc:] = l[0], u[0]
    w[mr + nr:, :mc], w[mr + nr:, mc + nc:] = l[-1], u[-1]
    c.close(A.extrap2d_pad(a.copy(), nx, *args), w, 'pad/2d', 0)
    if not np.isscalar(args[0]):
        for x, y in ((0, 2), (1, 2), (0, 3), (1, 3)):
            bad = [np.array(v) for v in args]
            e = {0: 0, 1: 0, 2: 0, 3: -1}
            bad[y][0 if x == 0 else -1] += 1.
            c.raises(lambda: A.extrap2d_pad(a, nx, *bad), ValueError,
                     'reject/2d', 'inconsistent corners %d %d' % (x, y))
            del e
    z = log[s].copy()
    if nr > 1 and nc > 1:
        z[0, 0] *= -1
        c.raises(lambda: A.extrap2d_loglin(z, nx), ValueError, 'reject/2d',
                 'mixed signs at an edge')
    c.raises(lambda: A.extrap2d_lin(a[0], nx), ValueError, 'reject/2d',
             '1-d array')
    c.raises(lambda: A.extrap_lin(rng.normal(0, 1, (2, 3)), 2), ValueError,
             'reject/1d', '2-d array')


def case_reshape(c):
    from triumvirate._arrayops import reshape_threept_datatab as R
    rng = c.rng
    n = int(rng.integers(1, 24))
    x = np.sort(rng.uniform(0, 1, n))
    shape = ['triu', 'full'][rng.integers(2)]
    c.params(n=n, shape=shape, head=x[:3])
    full = rng.normal(0, 1, (n, n))
    if shape == 'triu':
        full = full + full.T
        iu = [(i, j) for i in range(n) for j in range(i, n)]
    else:
        iu = [(i, j) for i in range(n) for j in range(n)]
        if rng.random() < .3:
            full = full + 1j*rng.normal(0, 1, (n, n))
    pairs = np.array([(x[i], x[j]) for i, j in iu])
    flat = np.array([full[i, j] for i, j in iu])
    if shape == 'triu' and rng.random() < .4:
        xx, m = R(pairs, flat)
    else:
        xx, m = R(pairs, flat, shape=shape)
    c.close(xx, x, 'reshape', 0, msg='coordinates')
    c.close(m, full, 'reshape', 0, msg='matrix')
    c.raises(lambda: R(pairs, flat[:-1], shape=shape), ValueError,
             'reject/reshape', 'lengths differ')
    c.raises(lambda: R(pairs, flat, shape='tril'), ValueError,
             'reject/reshape', 'unknown shape')
    c.raises(lambda: R(x, flat, shape=shape), ValueError, 'reject/reshape',
             '1-d coordinates')
    k = len(flat) + 1
    p2, f2 = np.zeros((k, 2)), np.zeros(k)
    tri = int((np.sqrt(8*k + 1) - 1)/2 + .5)
    if shape == 'triu' and tri*(tri + 1)//2 != k \
            or shape == 'full' and int(np.sqrt(k) + .5)**2 != k:
        c.raises(lambda: R(p2, f2, shape=shape), ValueError,
                 'reject/reshape', '%d values' % k)


def case_resample(c):
    from triumvirate.transforms import resample_lglin, resample_lin
    rng = c.rng
    fn = [resample_lglin, resample_lin][rng.integers(2)]
    log = fn is resample_lglin
    k = int(rng.choice([1, 2, 3, 3, 3, 5]))
    nd = 1 + int(rng.random() < .5)
    xs = []
    for _ in range(nd):
        n = int(rng.integers(8, 50))
        x = np.sort(rng.uniform(1, 10, n))
        if rng.random() < .5:
            x = np.linspace(x[0], x[-1] + .1, n)
        elif rng.random() < .5:
            x = np.geomspace(x[0], x[-1] + .1, n)
        else:
            x = x[0] + np.cumsum(rng.uniform(.05, .5, n))
        xs.append(x*10**rng.uniform(-3, 1))
    same = nd == 2 and rng.random() < .5
    if same:
        xs[1] = xs[0]
    size = None if rng.random() < .3 else int(rng.integers(2, 60))
    if nd == 2 and rng.random() < .4:
        size = [(int(rng.integers(2, 60)), int(rng.integers(2, 60))),
                [int(rng.integers(2, 60)), None]][rng.integers(2)]
    sc = [x[-1] for x in xs]
    deg = min(k, 3)
    cf = rng.normal(0, 1, (deg + 1,)*nd)

    def f(*xx):
        xx = [x/s for x, s in zip(xx, sc)]
        return np.polynomial.polynomial.polyval(xx[0], cf) if nd == 1 else \
            np.polynomial.polynomial.polygrid2d(xx[0], xx[1], cf)
    v = f(*xs)
    if nd == 1:
        arg = xs[0].copy() if rng.random() < .7 else xs[0].tolist()
    elif same and rng.random() < .7:
        arg = xs[0].copy()
    else:
        arg = (xs[0].copy(), xs[1].copy()) if rng.random() < .6 \
            else [xs[0].copy(), xs[1].copy()]
    kw = {} if k == 3 and rng.random() < .5 else dict(spline=k)
    if size is not None:
        kw['size'] = size
    c.params(fn=fn.__name__, ndim=nd, n=[len(x) for x in xs], size=size,
             spline=k, arg=type(arg).__name__, x0=[x[0] for x in xs])
    rx, rv = fn(arg, np.array(v), **kw)
    rx = [rx] if nd == 1 else rx
    szs = list(size) if isinstance(size, (tuple, list)) else [size]*nd
    want = []
    for x, s in zip(xs, szs):
        s = s or len(x)
        want.append(np.exp(np.linspace(np.log(x[0]), np.log(x[-1]), s))
                    if log else np.linspace(x[0], x[-1], s))
    for g, w, x in zip(rx, want, xs):
        c.close(g, w, 'points/resample', 1e-12, msg='sample points')
        if nd == 1:
            c.check(g[0] == x[0] and g[-1] == x[-1], 'points/resample',
                    'end points moved')
    c.close(rv, f(*want), 'value/resample-%dd' % nd, 1e-9,
            np.abs(v).max() + np.abs(cf).sum()*0.1, msg='polynomial samples')
    if nd == 1:
        c.raises(lambda: fn(xs[0][:-1], v), Exception, 'reject/resample',
                 'lengths differ')
    else:
        c.raises(lambda: fn([xs[0]]*3, v), Exception, 'reject/resample',
                 'three coordinate arrays')


GROUPS = [
    Group('1d', case_1d, 400, 6000),
    Group('oscil', case_oscil, 400, 6000),
    Group('2d', case_2d, 300, 4000),
    Group('reshape', case_reshape, 200, 2000),
    Group('resample', case_resample, 400, 6000),
]
