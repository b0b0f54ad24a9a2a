"""Mathematical and array functions of the C++ library."""
import os
import subprocess

import mpmath
import numpy as np
from scipy.special import sph_harm_y, spherical_jn

from verifkit import ref
from verifkit.build import san_env
from verifkit.worker import Group

RULE = ('Random arguments of every function (orders, degrees, projections '
        'allowed and not; complex arguments on both sides of the switches '
        'between approximations; vectors in all octants, on axes and planes, '
        'of any length; meshes even, odd and anisotropic; arrays of any '
        'sign and size), evaluated by the sanitised C++ library and '
        'compared with independent evaluations; distinct by arguments.')
ASSUMPTIONS = ['complex arguments of gamma functions keep off their poles',
               'spherical Bessel functions below the split are interpolated '
               '(errors below 1e-4)']


def prepare(build):
    return {'VERIF_LIB': build.harness('lib', san=True)}


def ask(c, lines, key):
    """Answers of the library: one list of rows for each line."""
    p = subprocess.run([os.environ['VERIF_LIB']], text=True, timeout=100,
                       input='\n'.join(lines) + '\n', env=san_env(
                           preload=False, OMP_NUM_THREADS=2),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not c.check(p.returncode == 0, key + '/run', 'ended with %d'
                   % p.returncode, text=p.stderr[-3000:], lines=lines[:5]):
        return None
    out, now = [], []
    for ln in p.stdout.splitlines():
        if ln == 'end':
            out.append(now)
            now = []
        elif ln.startswith('error'):
            now.append(ln)
        else:
            now.append([float(v) for v in ln.split()])
    if not c.check(len(out) == len(lines), key + '/run', 'answers %d of %d'
                   % (len(out), len(lines))):
        return None
    c.count('evaluations', len(lines))
    return out


def text(*v):
    return ' '.join(repr(x.item() if isinstance(x, np.generic) else x)
                    if not isinstance(x, str) else x for x in v)


def near(c, got, want, tol, key, msg):
    d = abs(got - want)
    c.check(d <= tol, key, '%s is %r instead of %r' % (msg, got, want))


def gamma(c):
    rng = c.rng
    z = []
    while len(z) < 12:
        x, y = rng.uniform(-20, 60), rng.normal()*10.**rng.uniform(-2, 1)
        if rng.random() < .2:
            y = 0.
        if rng.random() < .3:
            x = rng.uniform(0., 1.)
        if x > .1 or abs(x - round(x)) > .01 or abs(y) > .01:
            z.append((x, y))
    q = []
    for _ in range(12):
        mu = rng.integers(0, 9) + rng.choice([0., .5])
        re = rng.uniform(-.9, .9)*rng.integers(0, 2)
        im = rng.choice([rng.uniform(-99, 99), rng.uniform(95., 105.),
                         10.**rng.uniform(2, 3.5),
                         -10.**rng.uniform(2, 3.5)])
        q.append((mu, re, im))
    c.params(gamma=z, ratio=q)
    got = ask(c, [text('gamma', *v) for v in z] + [
        text('lngamma', *v) for v in z] + [text('lnratio', *v) for v in q]
        + [text('polar', *map(abs, v)) for v in z], 'gamma')
    if got is None:
        return
    for i, (x, y) in enumerate(z):
        w = complex(mpmath.gamma(mpmath.mpc(x, y)))
        g = complex(*got[i][0])
        d = min(abs(complex(x, y) - k) for k in range(-25, 1)) \
            if x < .5 else 1.
        tol = 1e-13*(1 + abs(complex(x, y)))*(1 + 1/d)*(
            1 + abs(np.log(abs(complex(x, y)) + 2)))
        near(c, g, w, 20*tol*abs(w) + 1e-300, 'gamma',
             'gamma(%r, %r)' % (x, y))
        w = mpmath.loggamma(mpmath.mpc(x, y))
        a, t = got[len(z) + i][0]
        near(c, a, float(w.real), 20*tol*(1 + abs(float(w.real))), 'lngamma',
             'log-gamma modulus (%r, %r)' % (x, y))
        near(c, np.exp(1j*t), complex(mpmath.exp(1j*w.imag)),
             20*tol*(1 + abs(complex(w))), 'lngamma',
             'log-gamma phase (%r, %r)' % (x, y))
    for (mu, re, im), v in zip(q, got[2*len(z):]):
        nu = mpmath.mpc(re, im)
        w = mpmath.loggamma((mu + 1 + nu)/2) - mpmath.loggamma(
            (mu + 1 - nu)/2)
        # log-gamma parts are large and cancel.
        s = 1e-13*(1 + abs(im) + mu)*(1 + np.log(2 + abs(im)))
        near(c, v[0][0], float(w.real), s, 'lnratio',
             'modulus of the ratio (%r, %r, %r)' % (mu, re, im))
        near(c, np.exp(1j*v[0][1]), complex(mpmath.exp(1j*w.imag)), s,
             'lnratio', 'phase of the ratio (%r, %r, %r)' % (mu, re, im))
    for (x, y), v in zip(z, got[2*len(z) + len(q):]):
        near(c, complex(*v[0]), abs(x)*np.exp(1j*abs(y)), 1e-14*abs(x),
             'polar', 'polar (%r, %r)' % (abs(x), abs(y)))


def coupling(c):
    rng = c.rng
    js = []
    for _ in range(40):
        j = rng.integers(0, 9, 3)
        m = [int(rng.integers(-v - 1, v + 2)) for v in j]
        if rng.random() < .7:
            m[2] = -m[0] - m[1]
        js.append([int(v) for v in j] + m)
    c.params(symbols=js)
    got = ask(c, [text('3j', *v) for v in js], 'coupling')
    for v, g in zip(js, got or []):
        j1, j2, j3, m1, m2, m3 = v
        ok = abs(j1 - j2) <= j3 <= j1 + j2 and m1 + m2 + m3 == 0 and all(
            abs(m) <= j for j, m in zip(v[:3], v[3:]))
        w = ref.w3j(*v) if ok else 0.
        near(c, g[0][0], w, 1e-13, 'coupling', '3j symbol %s' % (v,))
        c.count('non-zero' if w else 'zero')


def vectors(rng, n):
    v = rng.normal(size=(n, 3))
    v *= 10.**rng.uniform(-4, 5, (n, 1))
    k = rng.random(n)
    for i in range(n):
        if k[i] < .3:
            v[i, rng.integers(3)] = 0.
        elif k[i] < .5:
            a = rng.permutation(3)[:2]
            v[i, a] = 0.
        elif k[i] < .6:
            v[i, rng.integers(3)] *= 10.**rng.uniform(-12, -3)
    return v


def ylm(l, m, v):
    r = np.sqrt((v**2).sum(-1))
    th = np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2])
    ph = np.arctan2(v[..., 1], v[..., 0])
    y = np.sqrt(4*np.pi/(2*l + 1))*np.conj(sph_harm_y(l, m, th, ph))
    return np.where((r > 0) | (l == 0), y, 0.)


def harmonics(c):
    rng = c.rng
    v = vectors(rng, 12)
    if rng.random() < .3:
        v[0] = 0.
    ask_, want = [], []
    l = int(rng.integers(0, 9))     # noqa: E741
    for u in v:
        for m in range(-l, l + 1):
            ask_.append(text('ylm', l, m, *u))
            want.append(complex(ylm(l, m, u)))
        ask_.append(text('mag', *u))
    c.params(degree=l, vectors=v)
    got = ask(c, ask_, 'harmonics')
    if got is None:
        return
    i = 0
    for k, u in enumerate(v):
        s = 0.
        for m in range(-l, l + 1):
            g = complex(*got[i + k][0])
            # The azimuth follows from its cosine.
            near(c, g, want[i], 1e-12*(l + 1) + 3e-8*abs(m), 'harmonics',
                 'Y(%d, %d) at %s' % (l, m, list(u)))
            i += 1
            s += abs(g)**2
        if (u != 0).any() or l == 0:
            near(c, s, 1., 1e-7*(l + 1), 'harmonics/sum',
                 'sum of squares of degree %d at %s' % (l, list(u)))
        w = float(mpmath.sqrt(sum(mpmath.mpf(float(x))**2 for x in u)))
        for x in got[i + k][0]:
            near(c, x, w, 4e-16*w, 'magnitude', 'magnitude of %s' % list(u))


def fields(c):
    rng = c.rng
    n = rng.integers(1, 9, 3)
    box = rng.uniform(1., 3000., 3)
    l = int(rng.integers(0, 6))     # noqa: E741
    m = int(rng.integers(-l, l + 1))
    f = int(rng.integers(2))
    c.params(ngrid=n, box=box, degree=[l, m], fourier=f)
    got = ask(c, [text('field', f, l, m, *box, *n)], 'fields')
    if got is None:
        return
    ax = [np.fft.fftfreq(k)*k for k in n]
    d = 2*np.pi/box if f else box/n
    v = np.stack(np.meshgrid(*[a*s for a, s in zip(ax, d)],
                             indexing='ij'), -1)
    want = ylm(l, m, v).ravel()
    g = np.array(got[0])
    g = g[:, 0] + 1j*g[:, 1]
    # The mode or separation at the middle of an even axis is negative.
    c.check(len(g) == n.prod(), 'fields/size', '%d values' % len(g))
    bad = np.abs(g - want) > 1e-7*(l + 1)
    c.check(not bad.any(), 'fields', 'Y(%d, %d) wrong at %d points, first %s'
            % (l, m, bad.sum(), np.argwhere(bad)[:1]))
    c.count('mesh points', len(g))


def bessel(c):
    rng = c.rng
    l = int(rng.integers(0, 13)) if rng.random() < .8 \
        else int(rng.integers(30, 36))      # noqa: E741
    split = max(1000, l*l)
    x = np.concatenate([rng.uniform(0, 5, 20), rng.uniform(0, split, 30),
                        split + rng.uniform(-.2, .2, 6), rng.uniform(
                            split, 3*split, 10), [0., split, .05, 1e-6]])
    x = rng.permutation(x)
    c.params(order=l, x=x)
    got = ask(c, [text('jl', l, len(x), *x)], 'bessel')
    for v, (a, b) in zip(x, got[0] if got else []):
        w = float(spherical_jn(l, v))
        # Ends of a cubic spline, and its inside.
        edge = min(v, abs(split - v))
        tol = 1e-12 if v >= split else 1e-6 + 1e-4*np.exp(-edge/.05)
        near(c, a, w, tol, 'bessel', 'j_%d(%r)' % (l, v))
        c.check(a == b, 'bessel/copy', 'a copy gives %r instead of %r at %r'
                % (b, a, v))


def arrays(c):
    rng = c.rng
    k = int(rng.integers(0, 60))
    v = rng.integers(-5, 9, k)
    n = int(rng.integers(2, 30))
    a, s = rng.uniform(.1, 9), rng.uniform(-2, 2)
    kind = ['lin', 'log', 'any', 'sign', 'zero'][rng.integers(5)]
    if kind == 'log':
        y = a*np.exp(s*np.arange(n)/4)*rng.choice([-1, 1])
    elif kind == 'lin':
        y = a + s*np.arange(n)
    else:
        y = np.exp(rng.normal(size=n))*rng.choice([-1, 1])
        if kind == 'sign':
            y[rng.integers(n)] *= -1
        if kind == 'zero':
            y[rng.integers(n)] = 0.
    e = int(rng.integers(0, 12))
    lo, hi = rng.normal(size=2)
    c.params(sort=v, kind=kind, array=y, extend=e)
    got = ask(c, [text('sort', k, *v)] + [
        text('check', *f, n, *y) for f in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
        + [text('extend', h, e, lo, hi, n, *y) for h in range(3)], 'arrays')
    if got is None:
        return
    i = np.array([r[0] for r in got[0]], dtype=int)
    c.check(sorted(i.tolist()) == list(range(k)), 'sort',
            'not a permutation: %s' % i)
    c.check((np.diff(v[i]) >= 0).all(), 'sort', 'not sorted: %s' % v[i])
    lin = np.diff(y)
    c.check((got[1][0][0] == 0) == np.allclose(lin, lin[0]), 'check/lin',
            'linearity of %s judged %s' % (y, got[1]))
    with np.errstate(all='ignore'):
        r = np.log(y[1:]/y[:-1])
    good = np.isfinite(r).all()
    w = 3 if not good else 0 if np.allclose(r, r[0]) else 2
    c.check(got[2][0][0] == w, 'check/log', 'log-linearity of %s judged %s'
            % (y, got[2]))
    same = (y > 0).all() or (y < 0).all()
    c.check(got[3][0][0] == (0 if same else 3), 'check/sign',
            'signs of %s judged %s' % (y, got[3]))
    j = np.arange(1, e + 1)
    for h, name in enumerate(('lin', 'log', 'pad')):
        g = got[4 + h]
        if name == 'log' and not same:
            c.check(isinstance(g[0], str), 'extend/log',
                    'extended an array with a change of sign')
            continue
        if name == 'lin':
            w = [y[0] - j[::-1]*(y[1] - y[0]), y[-1] + j*(y[-1] - y[-2])]
        elif name == 'log':
            w = [y[0]*(y[0]/y[1])**j[::-1], y[-1]*(y[-1]/y[-2])**j]
        else:
            w = [np.full(e, lo), np.full(e, hi)]
        w = np.concatenate([w[0], y, w[1]])
        if not c.check(not isinstance(g[0], str) and g[0][0] == len(w),
                       'extend/' + name, 'answer %s' % g[:1]):
            continue
        x = np.array([r[0] for r in g[1:]])
        c.check(np.array_equal(x[e:e + n], y), 'extend/' + name,
                'the given values are changed')
        tol = 1e-11*(np.abs(w) + (np.abs(w).max() if name == 'lin' else 0))
        c.check((np.abs(x - w) <= tol).all(), 'extend/' + name,
                'extended by %s: %s instead of %s' % (name, x, w))


GROUPS = [Group('gamma', gamma, 200, 1500), Group('coupling', coupling, 40, 400),
          Group('harmonics', harmonics, 80, 800),
          Group('fields', fields, 120, 1200),
          Group('bessel', bessel, 40, 400), Group('arrays', arrays, 120, 1200)]
