"""Logarithmic Hankel and spherical Bessel transforms."""
import os
import subprocess

import numpy as np

from verifkit import hankel as H
from verifkit.worker import Group

RULE = ('Random order or degree, bias, pivot, low-ringing choice, sample '
        'count (odd and even), range, sample values (real and complex), '
        'extrapolation method, factor and layer, threading; transforms are '
        'compared with a term-by-term evaluation of the defining sum, with '
        'their own inverses and with closed forms; distinct by all of these.')


def prepare(b):
    return dict(TRV_SBT=b.harness('sbt'))


def rand_x(rng, even=False, lo=4, hi=140):
    n = int(rng.integers(lo, hi))
    if even:
        n += n % 2
    a = rng.uniform(-3, 2)
    d = rng.uniform(0.02, 0.25)
    if rng.random() < .2:       # dense: asymptotic kernel
        d = 10**rng.uniform(-2.7, -1.5)
    return np.exp(np.linspace(a, a + n*d, n))


def rand_f(rng, x, cplx=True):
    t = np.log(x/x[0])/np.log(x[-1]/x[0])
    k = rng.integers(4)
    if k == 0:
        f = rng.normal(0, 1, len(x))
    elif k == 1:
        f = np.exp(-(t - rng.uniform(.2, .8))**2*30)
    elif k == 2:
        f = x**rng.uniform(-2, 2)*np.exp(-x)
    else:
        f = np.cos(rng.uniform(1, 20)*t) * (1 + t)
    if cplx and rng.random() < 0.4:
        f = f + 1j*rng.normal(0, 1, len(x))
    return f


def rand_mu_q(rng):
    """Order and bias with a convergent kernel."""
    mu = rng.choice([0., 0.5, 1., 1.5, 2.5, 4.5, rng.uniform(0, 6)])
    q = 0. if rng.random() < 0.4 else float(rng.uniform(-0.9*(mu + 1), 0.9))
    return float(mu), q


def pivots(rng):
    return float(rng.choice([1., rng.uniform(0.2, 5.), 0.])), \
        bool(rng.random() < 0.6)


def check_grid(c, tag, x, y, piv):
    n = len(x)
    dl = np.log(x[-1]/x[0])/(n - 1)
    c.close(y, piv*np.exp(-dl)/x[::-1], 'points/' + tag, 1e-9,
            msg='post-transform points')
    c.check(np.all(np.diff(y) > 0), 'points/' + tag, 'points not increasing')


def check_pivot(c, tag, mu, q, x, kr, low, piv):
    dl = np.log(x[-1]/x[0])/(len(x) - 1)
    if low:
        c.check(abs(H.lowring_defect(mu, q, dl, piv)) < 1e-5,
                'pivot/' + tag, 'low-ringing condition is not met',
                defect=H.lowring_defect(mu, q, dl, piv), pivot=piv)
        if kr > 0:
            c.check(abs(np.log(piv/kr)) <= dl*0.5000001, 'pivot/' + tag,
                    'pivot adjusted by more than half a step', pivot=piv)
    else:
        c.close(piv, kr, 'pivot/' + tag, 1e-14, msg='pivot')


def case_hankel(c):
    from triumvirate._fftlog import HankelTransform
    rng = c.rng
    ext = int(rng.choice([0, 0, 0, 1, 2, 3, 4]))
    x = rand_x(rng, even=ext > 0)
    mu, q = rand_mu_q(rng)
    kr, low = pivots(rng)
    if not low and kr == 0.:
        kr = 1.
    f = rand_f(rng, x, cplx=ext == 0)
    if ext == 4:
        f = np.abs(f) + 0.1*np.abs(f).max()
        if rng.random() < 0.5:
            f = -f
    fac = float(rng.choice([1., 1.3, 2., 3.]))
    thr = bool(rng.random() < 0.3)
    c.params(mu=mu, q=q, n=len(x), x0=x[0], x1=x[-1], kr=kr, low=low, ext=ext,
             fac=fac, threaded=thr, complex=bool(np.iscomplexobj(f)),
             head=f[:3])
    h = HankelTransform(mu, q, x, kr, lowring=low, extrap=ext,
                        extrap_exp=fac, threaded=thr)
    y, g = h.transform(f)
    check_grid(c, 'hankel', x, y, h.pivot)
    check_pivot(c, 'hankel', mu, q, x, kr, low, h.pivot)
    m = H.n_ext(len(x), fac) if ext else 0
    c.check(h.size == len(x) + 2*m, 'size/hankel',
            'transform size %d instead of %d' % (h.size, len(x) + 2*m))
    xx, ff = (H.extrap(x, m, 4), H.extrap(f, m, ext)) if ext else (x, f)
    want = H.direct(xx, ff, mu, q, y)
    full = H.direct(xx, ff, mu, q, H.extrap(y, m, 4))
    c.close(g, want, 'value/hankel' + ('-extrap' if ext else ''), 1e-7,
            np.abs(full).max(), msg='transform')
    g0 = np.array(g)
    y2, g2 = h.transform(f)
    c.check(np.array_equal(g, g2) and np.array_equal(g, g0)
            and np.array_equal(y, y2), 'repeat/hankel',
            'a second transform differs')


def case_inverse(c):
    from triumvirate._fftlog import HankelTransform
    rng = c.rng
    x = rand_x(rng)
    mu, q = rand_mu_q(rng)
    q = float(np.clip(q, -0.9, 0.9))
    low = True if len(x) % 2 == 0 else bool(rng.random() < 0.5)
    kr = float(rng.uniform(0.3, 4))
    f = rand_f(rng, x)
    c.params(mu=mu, q=q, n=len(x), x0=x[0], x1=x[-1], kr=kr, low=low,
             head=f[:3])
    h = HankelTransform(mu, q, x, kr, lowring=low)
    y, g = h.transform(f)
    hb = HankelTransform(mu, -q, y, h.pivot, lowring=False)
    x2, f2 = hb.transform(g)
    c.close(x2, x, 'points/inverse', 1e-8, msg='sample points', atol=0)
    dl = np.log(x[-1]/x[0])/(len(x)-1)
    # Amplification of round-off by the kernel of the biased transform.
    u = np.abs(np.exp(H.log_kernel(mu, q, np.linspace(0, np.pi/dl, 200))))
    c.close(f2, f, 'value/inverse', 1e-9*max(1., u.max()/u.min()),
            msg='inverse of the transform')


def case_sbt(c):
    from triumvirate.transforms import SphericalBesselTransform
    rng = c.rng
    ext = int(rng.choice([0, 0, 1, 2, 3, 4]))
    x = rand_x(rng, even=ext > 0)
    ell = int(rng.integers(0, 7))
    q = int(rng.choice([0, 0, 0, -1]))
    kr, low = pivots(rng)
    if not low and kr == 0.:
        kr = 1.
    layer = ['outer', 'native'][rng.integers(2)]
    f = rand_f(rng, x, cplx=ext == 0)
    if ext == 4:
        f = np.abs(f) + 0.1*np.abs(f).max()
        if rng.random() < 0.25 and layer == 'outer':
            f[:int(rng.integers(1, 4))] = 0.
    fac = float(rng.choice([1., 1.3, 2., 3.]))
    dirn = [None, 'forward', 1, 'backward', -1][rng.integers(5)]
    thr = bool(rng.random() < 0.3)
    aslist = bool(rng.random() < 0.1 and ext == 0)
    c.params(ell=ell, q=q, n=len(x), x0=x[0], x1=x[-1], kr=kr, low=low,
             ext=ext, layer=layer, fac=fac, dir=dirn, threaded=thr,
             head=f[:3])
    t = SphericalBesselTransform(ell, q, x, pivot=kr, lowring=low, extrap=ext,
                                 extrap_exp=fac, extrap_layer=layer,
                                 threaded=thr)
    fin = np.array(f)
    if dirn is None:
        y, g = t.transform(fin)
        amp = 1.
    else:
        y, g = t.transform_cosmo_multipoles(dirn, fin)
        amp = (-1j)**ell if dirn in ('forward', 1) \
            else (1j)**ell/(2*np.pi)**3
    m = H.n_ext(len(x), fac) if ext else 0
    xx = H.extrap(x, m, 4) if ext else x
    if ext and layer == 'native':
        ff = H.extrap(f*x**1.5, m, ext)
    else:
        ff = (H.extrap(f, m, ext) if ext else f)*xx**1.5
    check_grid(c, 'sbt', x, y, t.pivot)
    check_pivot(c, 'sbt', ell + 0.5, q, x, kr, low, t.pivot)
    c.check(t.size == len(x) + 2*m, 'size/sbt', 'transform size')
    yy = H.extrap(y, m, 4)
    full = H.direct(xx, ff, ell + 0.5, q, yy)
    want = amp*(2*np.pi/y)**1.5*full[m:m + len(x)]
    # Round-off relative to the largest term of the unweighted transform.
    got = np.asarray(g)/(2*np.pi/y)**1.5
    c.close(got, want/(2*np.pi/y)**1.5, 'value/sbt-%s' % (
        layer if ext else 'none'), 1e-7, np.abs(amp)*np.abs(full).max(),
        msg='transform')


def case_double(c):
    from triumvirate.transforms import DoubleSphericalBesselTransform
    rng = c.rng
    ext = int(rng.choice([0, 1, 2, 3, 4]))
    n = int(rng.integers(6, 26))
    n += n % 2
    a = rng.uniform(-2, 1)
    x = np.exp(np.linspace(a, a + n*rng.uniform(0.05, 0.25), n))
    l1, l2 = (int(v) for v in rng.integers(0, 4, 2))
    kr, low = float(rng.uniform(.5, 2.)), True
    f = rng.uniform(0.5, 1., (n, n))
    if ext == 0 and rng.random() < .5:
        f = f + 1j*rng.normal(0, 1, (n, n))
    dirn = [None, 'forward', -1][rng.integers(3)]
    c.params(ells=[l1, l2], n=n, x0=x[0], x1=x[-1], kr=kr, ext=ext, dir=dirn,
             head=f.ravel()[:3])
    t = DoubleSphericalBesselTransform((l1, l2), (0, 0), x, pivot=kr,
                                       lowring=low, extrap=ext,
                                       extrap_exp=2., extrap2d=True)
    if dirn is None:
        (y1, y2), g = t.transform(np.array(f))
        amp = 1.
    else:
        (y1, y2), g = t.transform_cosmo_multipoles(dirn, np.array(f))
        amp = (-1j)**(l1 + l2) if dirn == 'forward' \
            else (1j)**(l1 + l2)/(2*np.pi)**6
    m = H.n_ext(n, 2.) if ext else 0
    dl = np.log(x[-1]/x[0])/(n - 1)
    xx = H.extrap(x, m, 4) if ext else x
    ff = np.array(f)
    if ext:
        ff = np.array([H.extrap(r, m, ext) for r in ff])
        ff = np.array([H.extrap(r, m, ext) for r in ff.T]).T
    p1, p2 = t.pivot
    c.check(ext or t.size == n, 'attributes', 'size %s' % (t.size,))
    c.check(tuple(t.degrees) == (l1, l2) and tuple(t.biases) == (0, 0),
            'attributes', 'degrees %s, biases %s' % (t.degrees, t.biases))
    k1, k2 = (p*np.exp(-dl)/xx[::-1] for p in (p1, p2))
    in1 = np.array([H.direct(xx, r*xx**1.5, l2 + .5, 0., k2) for r in ff])
    full = np.array([H.direct(xx, r*xx**1.5, l1 + .5, 0., k1)
                     for r in in1.T]).T
    s = slice(m, m + n)
    y = k1[s]
    c.close(y1[:, 0], k1[s], 'points/double', 1e-9)
    c.close(y2[0], k1[s], 'points/double', 1e-9)
    w = (2*np.pi/k1[s])[:, None]**1.5*(2*np.pi/k2[s])[None, :]**1.5
    c.close(np.asarray(g)/w, amp*full[s, s], 'value/double', 1e-7,
            abs(amp)*np.abs(full).max(), msg='double transform')


def case_analytic(c):
    """Closed-form pairs, through every interface."""
    from triumvirate.transforms import SphericalBesselTransform
    rng = c.rng
    ell = int(rng.integers(0, 6))
    s = float(rng.uniform(0.5, 3.))
    n = 2*int(rng.integers(200, 300))
    x = np.exp(np.linspace(np.log(s*1e-4), np.log(s*1e4), n))
    ext = int(rng.choice([0, 1, 2, 3]))
    c.params(ell=ell, s=s, n=n, ext=ext)
    with np.errstate(under='ignore'):
        f = x**ell*np.exp(-x**2/(2*s**2))
    t = SphericalBesselTransform(ell, 0, x, pivot=1., lowring=True,
                                 extrap=ext)
    k, g = t.transform_cosmo_multipoles('forward', np.array(f))
    want = (-1j)**ell*4*np.pi*np.sqrt(np.pi/2)*s**(2*ell + 3)*k**ell \
        * np.exp(-k**2*s**2/2)
    sel = (k*s > 0.03) & (k*s < 4.)
    c.check(sel.sum() > 20, 'points/analytic', 'too few points')
    c.close(g[sel], want[sel], 'value/analytic', 1e-6,
            msg='Gaussian multipole')
    tb = SphericalBesselTransform(ell, 0, k, pivot=t.pivot, lowring=True,
                                  extrap=0)
    x2, f2 = tb.transform_cosmo_multipoles('backward', g)
    sel = (x2 > s*0.05) & (x2 < s*3)
    c.close(x2, x, 'points/analytic-back', 1e-6)
    c.close(f2[sel], f[sel], 'value/analytic-back', 1e-6,
            msg='backward transform')


def case_options(c):
    """Threading never matters; unsuitable input is rejected."""
    from triumvirate.transforms import (
        SphericalBesselTransform as S, DoubleSphericalBesselTransform as D)
    from triumvirate._fftlog import HankelTransform
    rng = c.rng
    x = rand_x(rng, even=True, lo=8)
    f = rand_f(rng, x)
    ell = int(rng.integers(0, 4))
    c.params(ell=ell, n=len(x), x0=x[0], x1=x[-1])
    a = S(ell, 0, x, threaded=False).transform(np.array(f))
    b = S(ell, 0, x, threaded=True).transform(np.array(f))
    c.close(b[1], a[1], 'threads', 1e-12, msg='threaded transform')
    E = (ValueError, TypeError, RuntimeError)
    bad = np.array(x)
    bad[len(x)//2] *= 1.05
    k = 'reject'
    c.raises(lambda: S(ell, 0, bad), E, k, 'unevenly log-spaced points')
    c.raises(lambda: S(ell, 0, np.linspace(1, 5, 20)), E, k, 'linear points')
    c.raises(lambda: S(ell, 0, x, extrap=6), E, k, 'extrap=6')
    c.raises(lambda: S(ell, 0, x, extrap=-1), E, k, 'extrap=-1')
    c.raises(lambda: S(ell, 0, x[:-1], extrap=1), E, k, 'odd with extrap')
    c.raises(lambda: S(ell, 0, x, extrap=1, extrap_layer='x'), E, k,
             'unknown extrapolation layer')
    c.raises(lambda: D((0, 0), (0, 0), x, extrap=7), E, k, 'extrap=7 (2-d)')
    c.raises(lambda: D((0, 0), (0, 0), x[:-1], extrap=1), E, k,
             'odd with extrap (2-d)')
    c.raises(lambda: S(ell, 0, x).transform_cosmo_multipoles('up', f), E, k,
             'unknown direction')
    c.raises(lambda: S(ell, 0, x).transform_cosmo_multipoles(2, f), E, k,
             'unknown direction')
    c.raises(lambda: S(ell, 0, x, pivot=0., lowring=False), E, k,
             'zero pivot without low-ringing')
    c.raises(lambda: S(ell, 0, x, pivot=-1., lowring=False), E, k,
             'negative pivot without low-ringing')
    c.raises(lambda: S(ell, 0, x[:1]), E, k, 'a single point')
    for wrong in (f[:-1], np.append(f, 1.), f[:1], f[:0]):
        c.raises(lambda: HankelTransform(.5, 0, x, 1.).transform(wrong), E, k,
                 '%d samples at %d points' % (len(wrong), len(x)))
    c.raises(lambda: HankelTransform(0., 1., x, 1.), E, k,
             'order and bias at a pole')


def case_cpp(c):
    """The C++ spherical Bessel transform class."""
    rng = c.rng
    ext = int(rng.choice([0, 0, 1, 2, 3, 4]))
    x = rand_x(rng, even=ext > 0, hi=60)
    ell, q = int(rng.integers(0, 6)), int(rng.choice([0, 0, -1]))
    kr, low = float(rng.uniform(.3, 3.)), bool(rng.random() < .6)
    dirn = int(rng.choice([0, 1, -1]))
    f = rand_f(rng, x, cplx=ext == 0)
    if ext == 4:
        f = np.abs(f) + 0.1*np.abs(f).max()
    fac = float(rng.choice([1., 2., 3.]))
    sized = int(rng.integers(2))
    c.params(ell=ell, q=q, n=len(x), x0=x[0], x1=x[-1], kr=kr, low=low,
             ext=ext, fac=fac, dir=dirn, sized=sized, head=f[:3])
    fc = np.asarray(f, complex)
    inp = '%d %d %.17g %d %d %.17g %d %d %d\n' % (
        ell, q, kr, low, ext, fac, dirn, sized, len(x)) + '\n'.join(
        '%.17g %.17g %.17g' % (a, b.real, b.imag) for a, b in zip(x, fc))
    p = subprocess.run([os.environ['TRV_SBT']], input=inp, text=True,
                       capture_output=True, timeout=60)
    if not c.check(p.returncode == 0, 'crash/cpp', 'exit %s: %s' % (
            p.returncode, p.stderr[-400:])):
        return
    rows = [list(map(float, r.split())) for r in p.stdout.splitlines()]
    piv, r = rows[0][0], np.array(rows[1:])
    y, g = r[:, 0], r[:, 1] + 1j*r[:, 2]
    check_grid(c, 'cpp', x, y, piv)
    check_pivot(c, 'cpp', ell + .5, q, x, kr, low, piv)
    m = H.n_ext(len(x), fac) if ext else 0
    xx = H.extrap(x, m, 4) if ext else x
    ff = H.extrap(np.real(f)*x**1.5, m, ext) if ext else f*x**1.5
    full = H.direct(xx, ff, ell + .5, q, H.extrap(y, m, 4))
    amp = 1. if dirn == 0 else (-1j)**ell if dirn == 1 \
        else (1j)**ell/(2*np.pi)**3
    c.close(g/(2*np.pi/y)**1.5, amp*full[m:m + len(x)], 'value/cpp', 1e-7,
            abs(amp)*np.abs(full).max(), msg='C++ transform')


GROUPS = [
    Group('hankel', case_hankel, 250, 3000),
    Group('inverse', case_inverse, 200, 2000),
    Group('sbt', case_sbt, 250, 3000),
    Group('double', case_double, 40, 400),
    Group('analytic', case_analytic, 40, 300),
    Group('options', case_options, 30, 200),
    Group('cpp', case_cpp, 60, 600),
]
