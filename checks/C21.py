"""Window convolution."""
import json
import os
import re
import subprocess
import sys
import warnings
from fractions import Fraction

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline as IUS
from scipy.interpolate import RectBivariateSpline as RBS
from scipy.integrate import simpson

from verifkit import hankel as H
from verifkit.ref import w3j
from verifkit.worker import Group

RULE = ('Random formulae (multipoles, coefficients of every accepted type, '
        'with and without the integral constraint), window and model '
        'multipoles, common or separate sample points, key types, output '
        'points, transform and spline options, matrix options and numbers of '
        'processes; results are compared with the formulae evaluated '
        'directly; distinct by all of these.')

M3 = [(0, 0, 0), (1, 1, 0), (2, 2, 0), (2, 0, 2), (0, 2, 2), (1, 1, 2),
      (2, 2, 2), (1, 3, 2), (3, 3, 0), (3, 1, 2)]


def key(rng, m):
    """A multipole as callers may write it."""
    from triumvirate.winconv import Multipole
    k = rng.integers(4)
    if k == 0:
        return Multipole(m)
    if k == 1:
        return tuple(m)
    if k == 2:
        return ''.join(map(str, m))
    return ','.join(map(str, m)) if len(m) > 1 else str(m[0])


def coeff(rng):
    k = rng.integers(5)
    n, d = int(rng.choice([-5, -3, -2, -1, 1, 2, 3, 7])), \
        int(rng.integers(1, 9))
    if k == 0:
        return n, float(n)
    if k == 1:
        return Fraction(n, d), n/d
    if k == 2:
        return '%d/%d' % (n, d), n/d
    if k == 3:
        from sympy import Rational
        return Rational(n, d), n/d
    v = float(rng.normal())
    return v, v


def rand_formulae(rng, npt, ic=False, nout=None):
    """A random formulae dictionary and the same as plain numbers."""
    pool = [(ell,) for ell in range(0, 9, 2)] if npt == 2 else M3
    pool = [pool[i] for i in rng.permutation(len(pool))]
    outs = pool[:nout or int(rng.integers(1, 4))]
    f, plain = {}, {}
    for m in outs:
        f[key(rng, m)] = terms = []
        plain[m] = pt = []
        for _ in range(int(rng.integers(1, 5))):
            q = pool[rng.integers(len(pool))]
            z = pool[rng.integers(4)]
            a, b = coeff(rng)
            terms.append((key(rng, q), key(rng, z), a))
            pt.append((q, z, b))
        if ic and rng.random() < .7:
            q = pool[rng.integers(len(pool))]
            a, b = coeff(rng)
            terms.append((key(rng, q), 'ic', a))
            pt.append((q, 'ic', b))
    if rng.random() < .5:
        from triumvirate.winconv import WinConvFormulae, WinConvTerm
        if rng.random() < .5:
            f = {k: [WinConvTerm(*t) for t in v] for k, v in f.items()}
        f = WinConvFormulae(f)
    return f, plain


def named(name):
    """The named formulae in plain numbers, from the coupling of
    harmonics."""
    if name == 'wilson+16':
        out = {}
        for ell in (0, 2, 4):
            out[ell,] = [((q,), (z,), (2*ell+1)*w3j(ell, q, z, 0, 0, 0)**2)
                         for z in (0, 2, 4) for q in range(0, 9, 2)
                         if w3j(ell, q, z, 0, 0, 0)]
        return out
    t = {'000': '000:000 000:ic 110:110',
         '110': '000:110 110:000 110:ic',
         '202': '000:202 202:000 202:ic 110:112 112:110',
         '112': '000:112 112:000 112:ic 022:110 202:110 110:022 110:202'}
    d = {}
    for k, v in t.items():
        m = tuple(map(int, k))
        d[m] = []
        for s in v.split():
            q, z = s.split(':')
            q = tuple(map(int, q))
            z = z if z == 'ic' else tuple(map(int, z))
            d[m].append((q, z, -1. if z == 'ic' else coupling3(m, q, z)))
    return d


def coupling3(m, q, z):
    """Projection of the product of two tri-polar harmonics on a third, by
    summing over all magnetic numbers."""
    n = (2*m[0]+1)*(2*m[1]+1)*(2*m[2]+1)
    h = [w3j(*v, 0, 0, 0) for v in (m, q, z)]

    def g(a, b, c, ma, mb, mc):     # <y*_a y_b y_c>
        if ma != mb + mc:
            return 0.
        return (-1)**ma*w3j(a, b, c, 0, 0, 0)*w3j(a, b, c, -ma, mb, mc)

    def comps(v):
        for i in range(-v[0], v[0]+1):
            for j in range(-v[1], v[1]+1):
                k = -i - j
                if abs(k) <= v[2]:
                    w = w3j(*v, i, j, k)
                    if w:
                        yield (i, j, k), w
    tot = 0.
    for a, wa in comps(m):
        for b, wb in comps(q):
            for c, wc in comps(z):
                if any(x != y + s for x, y, s in zip(a, b, c)):
                    continue
                tot += wa*wb*wc*g(m[0], q[0], z[0], a[0], b[0], c[0]) \
                    * g(m[1], q[1], z[1], a[1], b[1], c[1]) \
                    * g(m[2], q[2], z[2], a[2], b[2], c[2])
    return n*h[0]**2*tot/(h[0]*h[1]*h[2])


def case_coeff(c):
    from triumvirate.winconv import calc_threept_winconv_coeff
    rng = c.rng
    m, q, z = (M3[i] for i in rng.integers(0, len(M3), 3))
    if sum(m) + sum(q) + sum(z) > 14:
        m, q, z = M3[c.idx % 7], M3[(c.idx // 7) % 7], M3[(c.idx*3) % 7]
    c.params(m=m, q=q, z=z)
    got = calc_threept_winconv_coeff(key(rng, m), key(rng, q), key(rng, z))
    c.close(got, coupling3(m, q, z), 'coefficient', 1e-10, atol=1e-12)
    symb = calc_threept_winconv_coeff(m, q, z, symb=True)
    c.close(float(symb), got, 'coefficient', 1e-14, msg='symbolic value')
    c.check(calc_threept_winconv_coeff(key(rng, m), key(rng, q), 'ic')
            == (-1 if m == q else 0), 'coefficient',
            'coefficient of the integral constraint')


def case_named(c):
    """Named formulae and formulae objects."""
    from triumvirate.winconv import (NAMED_FORMULAE, WinConvFormulae,
                                     Multipole)
    rng = c.rng
    if c.idx < 2:
        name = ['wilson+16', 'sugiyama+19'][c.idx]
        c.params(name=name)
        plain = named(name)
        f = WinConvFormulae(NAMED_FORMULAE[name])
        npt = 2 + c.idx
    else:
        npt = 2 + int(rng.integers(2))
        f, plain = rand_formulae(rng, npt, npt == 3)
        name = None
        c.params(npt=npt, formulae={str(k): v for k, v in plain.items()})
        f = f if isinstance(f, WinConvFormulae) else WinConvFormulae(f)
    srt = sorted({m for m in plain}, key=lambda m: (m[-1],) + m)
    c.check([m.index for m in f.multipoles] == srt, 'formulae',
            'multipoles %s, not %s' % (f.multipoles, srt))
    qs = sorted({t[0] for v in plain.values() for t in v},
                key=lambda m: (m[-1],) + m)
    c.check([m.index for m in f.multipoles_Q] == qs, 'formulae',
            'window multipoles %s, not %s' % (f.multipoles_Q, qs))
    zs = sorted({t[1] for v in plain.values() for t in v if t[1] != 'ic'},
                key=lambda m: (m[-1],) + m)
    got = [m if m == 'ic' else m.index for m in f.multipoles_Z]
    has = any(t[1] == 'ic' for v in plain.values() for t in v)
    c.check(got == zs + (['ic'] if has else []), 'formulae',
            'unwindowed multipoles %s' % got)
    for m in plain:
        for src in (f[key(rng, m)], f.get_dict()[Multipole(m)]):
            g = [(t.multipole_Q.index, t.multipole_Z if t.multipole_Z == 'ic'
                  else t.multipole_Z.index, float(t.coeff)) for t in src]
            if name:
                g = sorted(g, key=str)
                w = sorted(plain[m], key=str)
            else:
                w = plain[m]
            c.check([t[:2] for t in g] == [t[:2] for t in w], 'formulae',
                    'terms of %s: %s' % (m, g))
            if len(g) == len(w):
                c.close([t[2] for t in g], [t[2] for t in w], 'formulae',
                        1e-12, msg='coefficients of %s' % (m,))
    d = f.get_dict()
    d.clear()
    c.check(len(f.get_dict()) == len(plain), 'formulae',
            'the returned dictionary is not a copy')


def case_multipole(c):
    from triumvirate.winconv import Multipole
    rng = c.rng
    n = int(rng.choice([1, 3]))
    a, b = (tuple(int(v) for v in rng.integers(0, 4, n)) for _ in range(2))
    c.params(a=a, b=b)
    ka, kb = Multipole(key(rng, a)), Multipole(key(rng, b))
    c.check(ka.index == a and ka.abstr == ''.join(map(str, a))
            and str(ka) == ','.join(map(str, a)), 'multipole', 'index')
    oa, ob = (a[-1],) + a, (b[-1],) + b
    c.check((ka == kb) == (a == b) and (ka < kb) == (oa < ob)
            and (ka > kb) == (oa > ob) and (ka <= kb) == (oa <= ob)
            and (ka >= kb) == (oa >= ob), 'multipole',
            'comparison of %s and %s' % (a, b))
    c.check(hash(ka) == hash(Multipole(a)) and ka[0] == a[0]
            and len({ka, Multipole(a)}) == 1, 'multipole', 'hash')
    other = Multipole((0,)*(4 - n))
    c.raises(lambda: ka < other, ValueError, 'reject',
             'comparing different lengths')


# -- samples -------------------------------------------------------------
def points(rng, lo, hi, n=None, log=None):
    n = int(rng.integers(8, 30)) if n is None else n
    if log if log is not None else rng.random() < .6:
        return np.geomspace(lo, hi, n)
    return np.linspace(lo, hi, n)


def poly(rng, scale):
    cf = rng.normal(0, 1, 4)
    return lambda x: np.polynomial.polynomial.polyval(
        np.asarray(x)/scale, cf)


def poly2(rng, scale):
    cf = rng.normal(0, 1, (4, 4))
    return lambda x, y: np.polynomial.polynomial.polygrid2d(
        np.asarray(x)/scale, np.asarray(y)/scale, cf)


def uses(plain):
    q = sorted({t[0] for v in plain.values() for t in v})
    z = sorted({t[1] for v in plain.values() for t in v if t[1] != 'ic'})
    return q, z


def pick_formulae(c, npt, ic=False, nout=None):
    rng = c.rng
    if rng.random() < .25 and (npt == 2 or ic):
        name = 'wilson+16' if npt == 2 else 'sugiyama+19'
        return (name.upper() if rng.random() < .3 else name), named(name)
    return rand_formulae(rng, npt, ic, nout)


def split_points(rng, ms, maker, common):
    """Sample points per multipole, and the argument to pass."""
    if common:
        x = maker()
        return {m: x for m in ms}, x.copy()
    d = {m: maker() for m in ms}
    return d, {key(rng, m): d[m].copy() for m in ms}


def extra(rng, d, ms, maker):
    """Multipoles that no formula needs may be given as well."""
    if isinstance(d, dict) and rng.random() < .3:
        m = (10,)*len(ms[0])
        d[m] = maker()
    return d


def case_twopcf(c):
    from triumvirate.winconv import TwoPCFWinConv
    rng = c.rng
    f, plain = pick_formulae(c, 2)
    qs, zs = uses(plain)
    lo, hi = rng.uniform(1, 20), rng.uniform(100, 300)
    cq, cz = rng.random(2) < .5
    rq, aq = split_points(rng, qs, lambda: points(
        rng, lo*rng.uniform(.7, 1), hi*rng.uniform(1, 1.3)), cq)
    rz, az = split_points(rng, zs, lambda: points(
        rng, lo*rng.uniform(.7, 1), hi*rng.uniform(1, 1.3)), cz)
    mode = ['given', 'dict', 'none'][rng.integers(3)]
    if mode == 'none' and not set(plain) <= set(zs):
        mode = 'given'
    beyond = rng.random() < .2 and mode != 'none'
    mk = lambda: points(rng, lo*(.3 if beyond else 1.01),     # noqa: E731
                        hi*(2. if beyond else .99))
    if mode == 'given':
        x = mk()
        ro, ao = {m: x for m in plain}, x.copy()
    elif mode == 'dict':
        ro = {m: mk() for m in plain}
        ao = {key(rng, m): v.copy() for m, v in ro.items()}
    else:
        ro, ao = {m: rz[m] for m in plain}, None
    Q, Z = {m: poly(rng, hi) for m in qs}, {m: poly(rng, hi) for m in zs}
    c.params(formulae=f if isinstance(f, str) else
             {str(k): v for k, v in plain.items()}, common=[cq, cz],
             out=mode, beyond=beyond, lo=lo, hi=hi)
    wc = TwoPCFWinConv(f, aq, {key(rng, m): Q[m](rq[m]) for m in qs}, az,
                       **({} if ao is None else dict(r_out=ao)))
    got = wc.convolve({key(rng, m): Z[m](rz[m]) for m in zs})
    c.check({m.index for m in got} == set(plain), 'keys/2pcf', 'multipoles')
    for m, ts in plain.items():
        want, amp = 0., 0.
        for q, z, w in ts:
            x = np.clip(ro[m], rq[q].min(), rq[q].max())
            want = want + w*Q[q](x)*Z[z](ro[m])
            amp = amp + np.abs(w*Q[q](x)*Z[z](ro[m]))
        g = {k.index: v for k, v in got.items()}[m]
        c.close(g, want, 'value/2pcf', 1e-9, np.max(amp),
                msg='multipole %s' % (m,))
        c.close({k.index: v for k, v in wc.r_out.items()}[m], ro[m],
                'points/2pcf', 1e-12)
    if zs:
        bad = {key(rng, m): rz[m] for m in zs[1:]} or {(10,): rz[zs[0]]}
        c.raises(lambda: TwoPCFWinConv(
            f, aq, {m: Q[m](rq[m]) for m in qs}, bad, r_out=ro[m]),
            (ValueError, KeyError), 'reject/2pcf',
            'sample points without a required multipole')
    c.raises(lambda: TwoPCFWinConv(
        f, aq, {m: Q[m](rq[m]) for m in qs[1:]}, az, r_out=ro[m]),
        (ValueError, KeyError), 'reject/2pcf',
        'window without a required multipole')


def integral(x, z):
    return simpson(simpson(z*x[None, :]**2, x=x, axis=-1)*x**2, x=x)


def ref_ic(rq, Q, rz, Z, ms, x=None, approx=False):
    """Window-weighted mean of the unwindowed function."""
    num = 0.
    for m in ([(0, 0, 0)] if approx else ms):
        n = (2*m[0]+1)*(2*m[1]+1)*(2*m[2]+1)*w3j(*m, 0, 0, 0)**2
        y = x if x is not None else rz[m]
        num += n*integral(y, Q[m](y, y)*Z[m](y, y))
    y = x if x is not None else rz[0, 0, 0]
    return num/integral(y, Q[0, 0, 0](y, y))


def case_ic(c):
    from triumvirate.winconv import calc_threept_ic
    rng = c.rng
    k = int(rng.integers(1, 5))
    ms = [(0, 0, 0)] + [M3[i] for i in rng.permutation(
        np.arange(1, len(M3)))[:k]]
    ms_q = ms + [M3[int(rng.integers(len(M3)))]]
    ms_z = ms[:int(rng.integers(1, len(ms) + 1))]
    lo, hi = rng.uniform(1, 20), rng.uniform(100, 300)
    cq, cz = rng.random(2) < .5
    rq, aq = split_points(rng, list(dict.fromkeys(ms_q)), lambda: points(
        rng, lo*rng.uniform(.7, 1), hi*rng.uniform(1, 1.3)), cq)
    rz, az = split_points(rng, ms_z, lambda: points(rng, lo, hi), cz)
    Q, Z = {m: poly2(rng, hi) for m in rq}, {m: poly2(rng, hi) for m in rz}
    mode = ['none', 'array', 'dict'][rng.integers(3)]
    x = points(rng, lo, hi)
    approx = bool(rng.random() < .3)
    kw = dict(approx=True) if approx else {}
    if mode == 'array':
        kw['r_common'] = x.copy()
    elif mode == 'dict':
        kw['r_common'] = {key(rng, m): x.copy() for m in rz}
    c.params(Q=sorted(rq), Z=ms_z, common=[cq, cz], r_common=mode,
             approx=approx, lo=lo, hi=hi)
    got = calc_threept_ic(aq, {key(rng, m): Q[m](rq[m], rq[m]) for m in rq},
                          az, {key(rng, m): Z[m](rz[m], rz[m]) for m in rz},
                          **kw)
    both = [m for m in rz if m in rq]
    want = ref_ic(rq, Q, rz, Z, both, None if mode == 'none' else x, approx)
    d = abs(want) + 1.
    c.close(got, want, 'ic', 1e-8, d, msg='integral constraint')


def case_threepcf(c):
    from triumvirate.winconv import ThreePCFWinConv
    rng = c.rng
    ic = rng.random() < .6
    f, plain = pick_formulae(c, 3, ic)
    qs, zs = uses(plain)
    hasic = any(t[1] == 'ic' for v in plain.values() for t in v)
    calc = hasic and (0, 0, 0) in qs and (0, 0, 0) in zs \
        and rng.random() < .8
    lo, hi = rng.uniform(1, 20), rng.uniform(100, 300)
    cq, cz = rng.random(2) < .5
    rq, aq = split_points(rng, qs, lambda: points(
        rng, lo*rng.uniform(.7, 1), hi*rng.uniform(1, 1.3)), cq)
    rz, az = split_points(rng, zs, lambda: points(
        rng, lo*rng.uniform(.8, 1), hi*rng.uniform(1, 1.2)), cz)
    calc = calc and all(
        rq[m].min() <= rz[m].min() and rz[m].max() <= rq[m].max()
        for m in zs if m in rq)
    x = points(rng, lo*1.01, hi*.99)
    mode = ['given', 'none'][rng.integers(2)]
    if mode == 'none' and not set(plain) <= set(zs):
        mode = 'given'
    ro = {m: x if mode == 'given' else rz[m] for m in plain}
    Q, Z = {m: poly2(rng, hi) for m in qs}, {m: poly2(rng, hi) for m in zs}
    c.params(formulae=f if isinstance(f, str) else
             {str(k): v for k, v in plain.items()}, common=[cq, cz],
             out=mode, ic='calculated' if calc else hasic, lo=lo, hi=hi)
    wc = ThreePCFWinConv(f, aq, {key(rng, m): Q[m](rq[m], rq[m])
                                 for m in qs}, az,
                         **(dict(r_out=x.copy()) if mode == 'given' else {}))
    zin = {key(rng, m): Z[m](rz[m], rz[m]) + (
        1j*0 if rng.random() < .3 else 0.) for m in zs}
    val = float(rng.normal())
    if calc:
        got = wc.convolve(zin)
        val = ref_ic(rq, Q, rz, Z, [m for m in zs if m in qs])
    else:
        got = wc.convolve(zin, ic=val) if hasic or rng.random() < .5 \
            else wc.convolve(zin)
    ok = {m.index for m in got} == set(plain)
    c.check(ok, 'keys/3pcf', 'multipoles')
    gi = {k.index: v for k, v in got.items()}
    for m, ts in plain.items():
        y = ro[m]
        want, amp = 0., 0.
        for q, z, w in ts:
            xq = np.clip(y, rq[q].min(), rq[q].max())
            t = w*Q[q](xq, xq)*(val if z == 'ic' else Z[z](y, y))
            want, amp = want + t, amp + np.abs(t)
        # Outside the samples, 2-d interpolation is unspecified.
        inside = all(r[a].min() <= y.min() and y.max() <= r[a].max()
                     for t in ts for r, a in ((rq, t[0]), (rz, t[1]))
                     if a != 'ic')
        if inside:
            c.close(gi[m], want, 'value/3pcf', 1e-8, np.max(amp),
                    msg='multipole %s' % (m,))
    # The diagonal, from diagonal samples only.
    dg = {m: poly(rng, hi) for m in zs}
    Qd = wc
    got = Qd.convolve_diag({key(rng, m): dg[m](rz[m]) for m in zs}, ic=val)
    gi = {k.index: v for k, v in got.items()}
    for m, ts in plain.items():
        y = ro[m]
        want, amp = 0., 0.
        for q, z, w in ts:
            sp = IUS(rq[q], np.diag(Q[q](rq[q], rq[q])), k=3, ext=3)(y)
            t = w*sp*(val if z == 'ic' else dg[z](y))
            want, amp = want + t, amp + np.abs(t)
        c.close(gi[m], want, 'value/3pcf-diag', 1e-8, np.max(amp),
                msg='diagonal of multipole %s' % (m,))
    if hasic:
        c.raises(lambda: Qd.convolve_diag({m: dg[m](rz[m]) for m in zs}),
                 ValueError, 'reject/3pcf', 'no integral constraint given')


def sbt(x, f, ell, dirn, piv):
    """Multipole transform without extrapolation, at its own points."""
    dl = np.log(x[-1]/x[0])/(len(x) - 1)
    y = piv*np.exp(-dl)/x[::-1]
    amp = (-1j)**ell if dirn == 1 else (1j)**ell/(2*np.pi)**3
    return y, amp*(2*np.pi/y)**1.5*H.direct(x, f*x**1.5, ell + .5, 0, y)


def pivot(x, ell):
    """Low-ringing pivot nearest to one."""
    dl = np.log(x[-1]/x[0])/(len(x) - 1)
    # phase(u) = phi - pi/dl ln(kr) must be a multiple of pi
    phi = H.log_kernel(ell + .5, 0., np.pi/dl).imag
    t = phi/np.pi
    return np.exp(dl*(t - np.round(t)))


def case_powspec(c):
    from triumvirate.winconv import PowspecWinConv
    rng = c.rng
    f, plain = pick_formulae(c, 2)
    qs, zs = uses(plain)
    n = 2*int(rng.integers(8, 24))
    k0 = rng.uniform(.005, .02)
    ck = rng.random() < .5
    kz, ak = split_points(rng, zs, lambda: np.geomspace(
        k0*rng.uniform(.9, 1.1), k0*rng.uniform(40, 60), n), ck)
    lo, hi = .5/(k0*60), 2/k0
    rq, aq = split_points(rng, qs, lambda: points(
        rng, lo*.5, hi*2., 40), rng.random() < .5)
    Q = {m: poly(rng, hi) for m in qs}
    P = {m: rng.normal(0, 1, n)*100 for m in zs}
    common = rng.random() < .6 or not set(plain) <= set(zs)
    rc = np.geomspace(lo*rng.uniform(2., 3), hi*.4, 2*int(
        rng.integers(8, 20)))
    kout = None if rng.random() < .5 else np.sort(rng.uniform(
        k0*8, k0*20, 7))
    sp = int(rng.choice([3, 3, 1]))
    c.params(formulae=f if isinstance(f, str) else
             {str(k): v for k, v in plain.items()}, n=n, k0=k0,
             common_k=ck, r_common=common, k_out=kout is not None, spline=sp)
    kw = dict(transform_kwargs=dict(extrap=0))
    if common:
        kw['r_common'] = rc.copy()
    if kout is not None:
        kw['k_out'] = kout.copy()
    if sp != 3:
        kw['spline'] = (3, sp)
    wc = PowspecWinConv(f, aq, {key(rng, m): Q[m](rq[m]) for m in qs}, ak,
                        **kw)
    ret = rng.random() < .5
    got = wc.convolve({key(rng, m): P[m].copy() for m in zs}, ret_xi=ret)
    xi_got = None
    if ret:
        got, xi_got = got
    gi = {k.index: v for k, v in got.items()}
    xi = {}
    for z in zs:
        y, v = sbt(kz[z], P[z], z[0], -1, pivot(kz[z], z[0]))
        xi[z] = (y, np.real(v))
    outs = {}
    for m, ts in plain.items():
        x = rc if common else xi[m][0]
        v = 0.
        for q, z, w in ts:
            qq = IUS(rq[q], Q[q](rq[q]), k=3, ext=3)(x)
            v = v + w*qq*IUS(xi[z][0], xi[z][1], k=3)(x)
        if xi_got is not None:
            c.close({k.index: u for k, u in xi_got.items()}[m], v,
                    'value/powspec-xi', 1e-6, msg='intermediate 2PCF')
        y, pk = sbt(x, v, m[0], 1, pivot(x, m[0]))
        outs[m] = (y, pk)
    if kout is None:
        a = max(o[0][0] for o in outs.values())
        b = min(o[0][-1] for o in outs.values())
        ko = np.geomspace(a, b, min(len(o[0]) for o in outs.values()))
    else:
        ko = kout
    c.close(wc.k_out, ko, 'points/powspec', 1e-9, msg='k_out')
    c.check(set(gi) == set(plain), 'keys/powspec', 'multipoles')
    for m in plain:
        y, pk = outs[m]
        want = IUS(y, pk.real, k=sp)(ko) + 1j*IUS(y, pk.imag, k=sp)(ko)
        c.close(gi[m], want, 'value/powspec', 1e-6,
                max(np.abs(want).max(), np.abs(pk).max()*1e-3),
                msg='multipole %s' % (m,))


def case_powspec_default(c):
    """Default options on a smooth model: unit window changes nothing."""
    from triumvirate.winconv import PowspecWinConv
    rng = c.rng
    n = 2*int(rng.integers(100, 200))
    k = np.geomspace(1e-4, 10., n)
    kp, ns = rng.uniform(.01, .05), rng.uniform(.8, 1.1)
    ell = 0
    P = 1e4*(k/kp)**ns/(1 + (k/kp)**2.2)**1.5*np.exp(-(k/3.)**2)
    c.params(n=n, kp=kp, ns=ns)
    f = {ell: [((0,), (ell,), 1)]}
    r = np.geomspace(1e-3, 1e5, 50)
    wc = PowspecWinConv(f, r, {0: np.ones(50)}, k,
                        transform_kwargs=dict(extrap=1))
    got = wc.convolve({ell: P})
    g = list(got.values())[0]
    sel = (wc.k_out > .003) & (wc.k_out < 1.)
    c.check(sel.sum() > 20, 'unit/powspec', 'too few points')
    want = IUS(np.log(k), P)(np.log(wc.k_out))
    c.close(g.real[sel]/want[sel], np.ones(sel.sum()), 'unit/powspec', 5e-3,
            msg='unit window')


def bispec_setup(c, ic, diag_only=False):
    rng = c.rng
    f, plain = pick_formulae(c, 3, ic, nout=int(rng.integers(1, 3)))
    if isinstance(f, str) and rng.random() < .5:
        # the named formulae are dear; use a part of them
        f = {m: [(q, z, w) for q, z, w in ts]
             for m, ts in list(plain.items())[:2]}
        plain = {m: plain[m] for m in list(plain)[:2]}
    qs, zs = uses(plain)
    return f, plain, qs, zs


def ref_dsbt(x, f, ells, dirn):
    p1, p2 = pivot(x, ells[0]), pivot(x, ells[1])
    rows = [sbt(x, r, ells[1], dirn, p2) for r in f]
    g = np.array([r[1] for r in rows])
    cols = [sbt(x, r, ells[0], dirn, p1) for r in g.T]
    return cols[0][0], np.array([r[1] for r in cols]).T


def case_bispec(c):
    from triumvirate.winconv import BispecWinConv
    rng = c.rng
    f, plain, qs, zs = bispec_setup(c, rng.random() < .6)
    hasic = any(t[1] == 'ic' for v in plain.values() for t in v)
    calc = hasic and (0, 0, 0) in qs and (0, 0, 0) in zs
    n = 2*int(rng.integers(4, 7))
    k0 = rng.uniform(.005, .02)
    ck = rng.random() < .5
    uneven = rng.random() < .25
    mk = lambda: (np.linspace if uneven else np.geomspace)(   # noqa: E731
        k0*rng.uniform(.95, 1.05), k0*rng.uniform(20, 25),
        n if ck else n + 2*int(rng.integers(0, 2)))
    kz, ak = split_points(rng, zs, mk, ck)
    B = {m: rng.normal(0, 1, (len(kz[m]),)*2)*100 for m in zs}
    B = {m: b + b.T for m, b in B.items()}
    lo, hi = .5/(k0*25), 2/k0
    rq, aq = split_points(rng, qs, lambda: points(
        rng, lo*.5, hi*2., 20), rng.random() < .5)
    Q = {m: poly2(rng, hi) for m in qs}
    Q[0, 0, 0] = (lambda q: lambda x, y: np.abs(q(x, y)) + .5)(
        Q.get((0, 0, 0), poly2(rng, hi)))
    common = rng.random() < .6 or not set(plain) <= set(zs)
    rc = np.geomspace(lo*3, hi*.4, 2*int(rng.integers(4, 7)))
    kout = None if rng.random() < .5 else np.sort(rng.uniform(
        k0*4, k0*12, 4))
    c.params(formulae=f if isinstance(f, str) else
             {str(k): v for k, v in plain.items()}, n=n, k0=k0, common_k=ck,
             uneven=uneven, r_common=common, k_out=kout is not None,
             ic='calculated' if calc else hasic)
    kw = dict(transform_kwargs=dict(extrap=0))
    if common:
        kw['r_common'] = rc.copy()
    if kout is not None:
        kw['k_out'] = kout.copy()
    wc = BispecWinConv(f, aq, {key(rng, m): Q[m](rq[m], rq[m]) for m in qs},
                       ak, **kw)
    kl = {m: np.geomspace(x[0], x[-1], len(x)) for m, x in kz.items()}
    val = None if calc else float(rng.normal())
    bin_ = {key(rng, m): B[m].copy() for m in zs}
    got, zc = wc.convolve(bin_, ic=val, ret_zeta=True)
    gi = {k.index: v for k, v in got.items()}
    zi = {k.index: v for k, v in zc.items()}
    zeta = {}
    for z in zs:
        b = B[z] if not uneven else RBS(kz[z], kz[z], B[z])(kl[z], kl[z])
        y, v = ref_dsbt(kl[z], b, z[:2], -1)
        zeta[z] = (y, v.real)
    qs_ = {q: RBS(rq[q], rq[q], Q[q](rq[q], rq[q])) for q in qs}
    zs_ = {z: RBS(zeta[z][0], zeta[z][0], zeta[z][1]) for z in zs}
    if calc:
        both = [m for m in zs if m in qs]
        num = sum((2*m[0]+1)*(2*m[1]+1)*(2*m[2]+1)*w3j(*m, 0, 0, 0)**2
                  * integral(zeta[m][0], qs_[m](zeta[m][0], zeta[m][0])
                             * zeta[m][1]) for m in both)
        y = zeta[0, 0, 0][0]
        val = num/integral(y, qs_[0, 0, 0](y, y))
    outs = {}
    for m, ts in plain.items():
        x = rc if common else zeta[m][0]
        v, amp = 0., 0.
        for q, z, w in ts:
            t = w*qs_[q](x, x)*(val if z == 'ic' else zs_[z](x, x))
            v, amp = v + t, amp + np.abs(t)
        c.close(zi[m], v, 'value/bispec-zeta', 1e-6, np.max(amp),
                msg='intermediate 3PCF')
        outs[m] = ref_dsbt(x, v, m[:2], 1)
    if kout is None:
        a = max(o[0][0] for o in outs.values())
        b = min(o[0][-1] for o in outs.values())
        ko = np.geomspace(a, b, min(len(o[0]) for o in outs.values()))
    else:
        ko = kout
    c.close(wc.k_out, ko, 'points/bispec', 1e-9, msg='k_out')
    for m in plain:
        y, bk = outs[m]
        want = RBS(y, y, bk.real)(ko, ko) + 1j*RBS(y, y, bk.imag)(ko, ko)
        c.close(gi[m], want, 'value/bispec', 1e-6,
                max(np.abs(want).max(), np.abs(bk).max()*1e-3),
                msg='multipole %s' % (m,))
    # Its matrix.
    useic = bool(calc)
    diag = bool(rng.random() < .4)
    concat = bool(rng.random() < .4)
    if sum(len(x)**2 for x in kz.values()) > 250:
        return
    hide = open(os.devnull, 'w')
    old, sys.stdout = sys.stdout, hide
    try:
        mat = wc.gen_winconv_mat(ic=useic, concat=concat, diag=diag)
    finally:
        sys.stdout = old
        hide.close()
    order = sorted(zs, key=lambda m: (m[-1],) + m)
    vec = np.concatenate([B[m].ravel() for m in order])
    ref = wc.convolve({m: B[m] for m in zs}, ic=None if useic else 0.)
    ri = {k.index: v for k, v in ref.items()}
    om = sorted(plain, key=lambda m: (m[-1],) + m)
    want = {m: np.diag(ri[m]) if diag else ri[m].ravel() for m in om}
    s = max(np.abs(v).max() for v in want.values())
    if concat:
        c.close(mat @ vec, np.concatenate([want[m] for m in om]),
                'matrix', 1e-7, s*10, msg='concatenated matrix')
    else:
        mi = {k.index: v for k, v in mat.items()}
        for m in om:
            c.close(mi[m] @ vec, want[m], 'matrix', 1e-7, s*10,
                    msg='matrix of %s' % (m,))


MPI_PROG = r'''
import sys, warnings, json
warnings.simplefilter('ignore')
import numpy as np
from mpi4py import MPI
from triumvirate.winconv import BispecWinConv
cfg = json.load(open(sys.argv[1]))
comm = MPI.COMM_WORLD
k = np.array(cfg['k']); r = np.array(cfg['r'])
Q = {m: np.array(v) for m, v in cfg['Q'].items()}
f = {m: [tuple(t) for t in ts] for m, ts in cfg['f'].items()}
def make(comm, root):
    return BispecWinConv(f, r, Q, k, transform_kwargs=dict(extrap=0),
                         comm=comm, comm_root=root)
root = cfg['root'] % comm.size
a = make(comm, root).gen_winconv_mat(ic=cfg['ic'], concat=cfg['concat'],
                                     diag=cfg['diag'])
if comm.rank == root:
    b = make(None, 0).gen_winconv_mat(ic=cfg['ic'], concat=cfg['concat'],
                                      diag=cfg['diag'])
    if cfg['concat']:
        a, b = {'all': a}, {'all': b}
    a = {str(m): v for m, v in a.items()}
    b = {str(m): v for m, v in b.items()}
    out = dict(keys=sorted(a) == sorted(b), dev=[], shapes=[])
    for m in b:
        out['shapes'].append([list(a[m].shape), list(b[m].shape)])
        if a[m].shape == b[m].shape:
            out['dev'].append(float(np.abs(a[m] - b[m]).max()
                                    / np.abs(b[m]).max()))
    json.dump(out, open(sys.argv[2], 'w'))
else:
    assert a is None
    make_ok = True
'''


def mpi_ok(scratch):
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1',
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    try:
        p = subprocess.run(
            ['mpirun', '--oversubscribe', '-n', '2', sys.executable, '-c',
             'from mpi4py import MPI; MPI.COMM_WORLD.Barrier()'],
            env=env, capture_output=True, timeout=60, cwd=scratch)
        return p.returncode == 0, env
    except (OSError, subprocess.TimeoutExpired):
        return False, env


def case_mpi(c):
    """The matrix made by several processes is that made by one."""
    rng = c.rng
    n = 2*int(rng.integers(2, 4))
    np_ = int(rng.choice([2, 3, 5]))
    k = np.geomspace(.01, .2, n)
    r = np.geomspace(1., 500., 10)
    f = {'000': [('000', '000', 1), ('110', '110', .5), ('000', 'ic', -1)],
         '202': [('202', '000', 1.), ('000', '202', .7)]}
    used = ['000', '110', '202']
    zz = ['000', '110', '202']
    if rng.random() < .5:
        del f['202']
        used, zz = ['000', '110'], ['000', '110']
    Q = {m: (rng.uniform(.5, 1, (10, 10))).tolist() for m in used}
    cfg = dict(k=k.tolist(), r=r.tolist(), Q=Q, f=f,
               root=int(rng.integers(3)), ic=bool(rng.random() < .5),
               concat=bool(rng.random() < .5), diag=bool(rng.random() < .5))
    c.params(n=n, processes=np_, f=sorted(f), root=cfg['root'], ic=cfg['ic'],
             concat=cfg['concat'], diag=cfg['diag'])
    ok, env = mpi_ok(c.scratch)
    if not ok:
        c.count('mpirun unavailable')
        return
    base = os.path.join(c.scratch, 'mpi%d' % c.idx)
    json.dump(cfg, open(base + '.json', 'w'))
    open(base + '.py', 'w').write(MPI_PROG)
    try:
        p = subprocess.run(
            ['mpirun', '--oversubscribe', '-n', str(np_), sys.executable,
             base + '.py', base + '.json', base + '.out'], env=env,
            capture_output=True, timeout=150, cwd=c.scratch)
    except subprocess.TimeoutExpired:
        c.fail('mpi', 'the processes did not end in 150 s')
        return
    if not c.check(p.returncode == 0 and os.path.exists(base + '.out'),
                   'mpi', 'exit %s: %s' % (p.returncode,
                                           p.stderr[-800:].decode())):
        return
    out = json.load(open(base + '.out'))
    c.check(out['keys'] and all(a == b for a, b in out['shapes']), 'mpi',
            'multipoles or shapes differ: %s' % out)
    c.close(out['dev'], np.zeros(len(out['shapes'])), 'mpi', 0, atol=1e-12,
            msg='matrix')


# -- window objects ------------------------------------------------------
def window(c, log=True, n=None):
    rng = c.rng
    ms = [M3[i] for i in rng.permutation(len(M3))[:int(rng.integers(1, 5))]]
    n = int(rng.integers(6, 16)) if n is None else n
    r = points(rng, rng.uniform(1, 10), rng.uniform(100, 300), n, log)
    Q, flat, pairs = {}, {}, {}
    for m in ms:
        q = rng.normal(0, 1, (n, n))
        sym = m[0] == m[1]
        if sym:
            q = q + q.T
        ij = [(i, j) for i in range(n) for j in range(i if sym else 0, n)]
        Q[m] = q
        flat[m] = np.array([q[i, j] for i, j in ij])
        pairs[m] = np.array([(r[i], r[j]) for i, j in ij])
    return ms, n, r, Q, flat, pairs


def same_window(c, w, ms, r, Q, tag, tol=1e-12):
    c.check([m.index for m in w.multipoles]
            == sorted(ms, key=lambda m: (m[-1],) + m), tag,
            'multipoles %s' % (list(w.multipoles),))
    ri = {k.index: v for k, v in w.r.items()}
    qi = {k.index: v for k, v in w.Q.items()}
    di = {k.index: v for k, v in w.Q_diag.items()}
    if not c.check(set(ri) == set(qi) == set(di) == set(ms), tag,
                   'multipoles of the samples'):
        return
    for m in ms:
        c.close(ri[m], r[m] if isinstance(r, dict) else r, tag, tol,
                msg='sample points of %s' % (m,))
        c.close(qi[m], Q[m], tag, tol, msg='samples of %s' % (m,))
        c.close(di[m], np.diag(Q[m]), tag, tol, msg='diagonal of %s' % (m,))


def case_window(c):
    from triumvirate.winconv import ThreePointWindow
    rng = c.rng
    ms, n, r, Q, flat, pairs = window(c)
    alpha = 1. if rng.random() < .4 else float(
        np.exp(rng.uniform(-4, 1.2)))
    shared = rng.random() < .3 and len({m[0] == m[1] for m in ms}) == 1
    c.params(ms=ms, n=n, alpha=alpha, shared=shared, r0=r[0], r1=r[-1])
    ks = {m: key(rng, m) for m in ms}
    w = ThreePointWindow(
        pairs[ms[0]] if shared else {ks[m]: pairs[m] for m in ms},
        {ks[m]: flat[m].copy() for m in ms},
        **({} if alpha == 1. else dict(alpha_contrast=alpha)))
    Qa = {m: q*alpha**2 for m, q in Q.items()}
    same_window(c, w, ms, r, Qa, 'window/make')
    c.check(len(w.sources) == len(ms), 'window/make', 'sources')
    # Saving and loading.
    p = os.path.join(c.scratch, 'w%d.npz' % c.idx)
    w.save_to_file(p)
    w2 = ThreePointWindow.load_from_file(p)
    same_window(c, w2, ms, r, Qa, 'window/file', 0)
    c.check(list(w2.sources) == list(w.sources), 'window/file', 'sources')
    d = {'r': {key(rng, m): r for m in ms} if rng.random() < .5 else r,
         'Q': {key(rng, m): Qa[m] for m in ms}}
    w3 = ThreePointWindow.load_from_dict(d)
    same_window(c, w3, ms, r, Qa, 'window/dict', 0)
    # Selection.
    for src in (w, w2, w3):
        lo, hi = sorted(rng.uniform(r[0], r[-1], 2))
        lo, hi = [(lo, hi), (None, hi), (lo, None)][rng.integers(3)]
        i0, i1 = sorted(int(v) for v in rng.integers(0, n + 1, 2))
        i0, i1 = [(i0, i1), (None, i1), (i0, None), (None, -1)][
            rng.integers(4)]
        use = rng.integers(1, 4)
        dct = rng.random() < .5
        some = [m for m in ms if rng.random() < .6] if dct else ms
        kw = {}
        if use & 1:
            kw['rrange'] = {key(rng, m): (lo, hi) for m in some} \
                if dct else (lo, hi)
        if use & 2:
            kw['idxrange'] = {key(rng, m): (i0, i1) for m in some} \
                if dct else (i0, i1)
        sel = {}
        for m in ms:
            s = np.ones(n, bool)
            if m in some and use & 1:
                s &= (r >= (-np.inf if lo is None else lo)) \
                    & (r <= (np.inf if hi is None else hi))
            if m in some and use & 2:
                t = np.zeros(n, bool)
                t[slice(i0, i1)] = True
                s &= t
            sel[m] = s
        rs = {m: r[sel[m]] for m in ms}
        Qs = {m: Qa[m][np.ix_(sel[m], sel[m])] for m in ms}
        new = src.subselect(**kw)
        same_window(c, new, ms, rs, Qs, 'window/subselect', 0)
        same_window(c, src, ms, r, Qa, 'window/subselect-source', 1e-12)
        c.check(src.subselect(inplace=True, **kw) is None,
                'window/subselect', 'in-place selection returns')
        same_window(c, src, ms, rs, Qs, 'window/subselect-inplace', 1e-12)


def case_resample(c):
    from triumvirate.winconv import ThreePointWindow
    rng = c.rng
    ms, n, r, _, _, _ = window(c, log=False, n=int(rng.integers(8, 20)))
    Qf, flat, pairs = {}, {}, {}
    for m in ms:
        g = poly2(rng, r[-1])
        if m[0] == m[1]:
            Qf[m] = (lambda g: lambda x, y: g(x, y) + g(y, x).T)(g)
        else:
            Qf[m] = g
        q = Qf[m](r, r)
        iu = [(i, j) for i in range(n)
              for j in range(i if m[0] == m[1] else 0, n)]
        flat[m] = np.array([q[i, j] for i, j in iu])
        pairs[m] = np.array([(r[i], r[j]) for i, j in iu])
    mode = [True, 'size', False, 'default'][rng.integers(4)]
    size = int(rng.integers(8, 30))
    c.params(ms=ms, n=n, mode=mode, size=size, r0=r[0], r1=r[-1])
    kw = {} if mode == 'default' else dict(
        make_loglin=size if mode == 'size' else mode)
    w = ThreePointWindow(pairs, flat, **kw)
    if mode is False:
        x = r
    else:
        x = np.geomspace(r[0], r[-1], size if mode == 'size' else n)
    same_window(c, w, ms, x, {m: Qf[m](x, x) for m in ms},
                'window/loglin', 1e-9)
    spacing = ['lglin', 'lin'][rng.integers(2)]
    s2 = None if rng.random() < .3 else int(rng.integers(8, 30))
    before = len(x)
    w.resample(**dict(spacing=spacing), **({} if s2 is None
                                           else dict(size=s2)))
    y = (np.geomspace if spacing == 'lglin' else np.linspace)(
        r[0], r[-1], s2 or before)
    if len(x) >= 4:
        same_window(c, w, ms, y, {m: Qf[m](y, y) for m in ms},
                    'window/resample', 1e-7)
    c.raises(lambda: w.resample(spacing='log'), ValueError, 'reject/window',
             'unknown spacing')


def case_textfiles(c):
    """Windows read from text files as saved by measurements."""
    from triumvirate.winconv import ThreePointWindow
    rng = c.rng
    ms, n, r, Q, flat, pairs = window(c)
    alpha = float(rng.choice([1., .1, .37, 2.3, 7.]))
    sub = bool(rng.random() < .6)
    files, cols = {}, {}
    for m in ms:
        k = len(flat[m])
        t = rng.normal(0, 1, (k, 10))
        t[:, 1], t[:, 4] = pairs[m][:, 0], pairs[m][:, 1]
        shot = t[:, 8].copy()
        t[:, 6] = flat[m] + (shot if sub else 0.)
        t[:, [0, 2, 3, 5, 7, 9]] *= 10.
        p = os.path.join(c.scratch, 'q%d-%s.txt' % (c.idx, ''.join(
            map(str, m))))
        np.savetxt(p, t, fmt='%.17g', header='a comment')
        files[key(rng, m)] = p
    # Sorting the files needs keys of one kind.
    kind = int(rng.integers(2))
    files = {(m if kind else ''.join(map(str, m))): p
             for m, p in zip(ms, files.values())}
    c.params(ms=ms, n=n, alpha=alpha, subtract=sub)
    kw = {} if sub else dict(subtract_shotnoise=False, usecols=(1, 4, 6))
    w = ThreePointWindow.load_from_textfiles(files, alpha_contrast=alpha,
                                             **kw)
    same_window(c, w, ms, r, {m: q*alpha**2 for m, q in Q.items()},
                'window/text', 1e-11)
    c.check(sorted(w.sources) == sorted(files.values()), 'window/text',
            'sources %s' % (w.sources,))
    c.raises(lambda: ThreePointWindow.load_from_textfiles(
        files, subtract_shotnoise=not sub, **(
            {} if not sub else {}), **(
                dict(usecols=(1, 4, 6)) if not sub
                else dict(usecols=(1, 4, 6, 8)))),
        ValueError, 'reject/window', 'wrong number of columns')


# -- terms and their display ---------------------------------------------
def number(s):
    """The value of a LaTeX coefficient."""
    import math
    s = s.replace(' ', '')
    sign = 1.
    if s and s[0] in '+-':
        sign = -1. if s[0] == '-' else 1.
        s = s[1:]
    if not s:
        return sign
    for _ in range(4):
        s = re.sub(r'\\frac\{([^{}]*)\}\{([^{}]*)\}', r'((\1)/(\2))', s)
        s = re.sub(r'\\sqrt\{([^{}]*)\}', r'*sqrt(\1)', s)
    s = s.replace('\\cdot10^{', '*10**(').replace('}', ')').lstrip('*')
    s = s.replace('(*', '(')
    return sign*eval(s, {'sqrt': math.sqrt})


def case_terms(c):
    from triumvirate.winconv import (Multipole, WinConvFormulae,
                                     WinConvTerm)
    rng = c.rng
    npt = int(rng.choice([2, 3]))
    pool = [(ell,) for ell in range(0, 9, 2)] if npt == 2 else M3
    outs = [pool[i] for i in rng.permutation(len(pool))[
        :int(rng.integers(1, 4))]]
    f, plain = {}, {}
    for m in outs:
        k = key(rng, m)
        f[k], plain[m] = [], []
        for _ in range(int(rng.integers(1, 5))):
            q, z = (pool[rng.integers(len(pool))] for _ in range(2))
            z = 'ic' if npt == 3 and rng.random() < .2 else z
            a, b = coeff(rng)
            if rng.random() < .2:
                from sympy import sqrt, Rational
                i, j = int(rng.integers(2, 8)), int(rng.integers(1, 6))
                a, b = sqrt(Rational(i, j)), (i/j)**.5
                if rng.random() < .5:
                    a, b = -a, -b
            t = (key(rng, q), z if z == 'ic' else key(rng, z), a)
            f[k].append(WinConvTerm(*t) if rng.random() < .5 else t)
            plain[m].append((q, z, b))
    if all(t[1] == 'ic' for v in plain.values() for t in v):
        f[k].append((key(rng, pool[0]), key(rng, pool[0]), 1))
        plain[m].append((pool[0], pool[0], 1.))
    c.params(formulae={str(k): v for k, v in plain.items()})
    given = {k: list(v) for k, v in f.items()}
    F = WinConvFormulae(f)
    c.check(f == given, 'terms', 'the given dictionary is changed')
    c.check({m.index for m in F.multipoles} == set(plain), 'terms',
            'multipoles %s' % (F.multipoles,))

    def plainly(terms):
        return [(t.index_Q, t.index_Z, float(t.coeff)) for t in terms]

    def alike(a, b):
        return len(a) == len(b) and all(
            s[:2] == t[:2] and abs(s[2] - t[2]) < 1e-13*abs(t[2])
            for s, t in zip(a, b))

    sym = r'\zeta' if rng.random() < .5 else 'Z'
    for m, want in plain.items():
        ts = F[key(rng, m)]
        c.check(alike(plainly(ts), want), 'terms', 'terms of %s: %s'
                % (m, ts))
        x = F.get_latex_expr(key(rng, m), symbol=sym)
        got = []
        for v in re.finditer(
                r'([^Q]*) ?Q_(?:\{(\d+)\}|\\mathrm\{(\w+)\}) '
                + re.escape(sym) + r'_(?:\{(\d+)\}|\\mathrm\{(\w+)\})', x):
            a = v.group(2) or v.group(3)
            b = v.group(4) or v.group(5)
            got.append((tuple(map(int, a)), b if b == 'ic'
                        else tuple(map(int, b)), number(v.group(1))))
        left = re.sub(r'[^Q]*Q_\S+ ' + re.escape(sym) + r'_\S+', '', x)
        c.check(not left.strip() and len(got) == len(want) and all(
            s[:2] == t[:2] and abs(s[2] - t[2]) < 1e-12*abs(t[2])
            for s, t in zip(got, want)), 'latex',
            '%s shown as %s' % (want, x))
        for t, w in zip(ts, want):
            y = (str(Multipole(w[0])), w[1] if w[1] == 'ic'
                 else str(Multipole(w[1])))
            s = str(t).split(';')
            c.check(tuple(s[1:]) == y and s[0] == str(t.coeff), 'terms',
                    '%s as %s' % (w, t))
            c.check(t == WinConvTerm(w[0], w[1], t.coeff)
                    and t != WinConvTerm(w[0], w[1], t.coeff + 1)
                    and t != WinConvTerm((9,)*len(w[0]), w[1], t.coeff)
                    and t != WinConvTerm(w[0], (9,)*len(w[0]), t.coeff)
                    and t != w, 'terms', 'equality of %s' % t)
        c.count('terms', len(ts))
    d = F.get_dict()
    for v in d.values():
        v.clear()
    d.clear()
    c.check(all(alike(plainly(F[m]), w) for m, w in plain.items()),
            'terms', 'changing a copy changes the formulae')
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        t = WinConvTerm(pool[0], pool[1], [0, 0., '0', Fraction(0)][
            rng.integers(4)])
    c.check(any(issubclass(w.category, RuntimeWarning) for w in got)
            and t.get_latex_str() == '', 'terms',
            'no warning of a vanishing coefficient')


# -- ranges --------------------------------------------------------------
def covered(x, y):
    """Whether the samples y span x; None within 10 % of the tolerance."""
    a, b = 1 - x.min()/y.min(), x.max()/y.max() - 1
    if max(a, b) > 1.1e-5:
        return False
    return True if max(a, b) < .9e-5 else None


def case_coverage(c):
    """Output points beyond the samples are reported, and avoided if so
    asked."""
    from triumvirate.winconv import (ConvolutionRangeWarning,
                                     ThreePCFWinConv, TwoPCFWinConv,
                                     calc_threept_ic)
    rng = c.rng
    npt = int(rng.choice([2, 3]))
    f, plain = rand_formulae(rng, npt, npt == 3)
    qs, zs = uses(plain)
    lo, hi = rng.uniform(1, 20), rng.uniform(100, 300)

    def some():
        e = rng.choice([0., 2e-6, 1e-4, .1], 2)
        s = rng.choice([-1., 1.], 2)
        return points(rng, lo*(1 + s[0]*e[0]), hi*(1 + s[1]*e[1]))

    rq, aq = split_points(rng, qs, some, rng.random() < .4)
    rz, az = split_points(rng, zs, some, rng.random() < .4)
    mode = ['given', 'dict', 'enforced', 'none'][rng.integers(4)]
    kw = {}
    if mode == 'given':
        x = some()
        ro = {m: x for m in plain}
        kw = dict(r_out=x.copy())
    elif mode == 'dict':
        ro = {m: some() for m in plain}
        kw = dict(r_out={key(rng, m): v.copy() for m, v in ro.items()})
    elif mode == 'none':
        ro = {m: rz.get(m) for m in plain}
    else:
        ro = None
        kw = dict(r_out=some())
    c.params(npt=npt, formulae={str(k): v for k, v in plain.items()},
             out=mode, lo=lo, hi=hi)
    cls = TwoPCFWinConv if npt == 2 else ThreePCFWinConv
    Q = {m: poly(rng, hi)(rq[m]) if npt == 2 else poly2(rng, hi)(
        rq[m], rq[m]) for m in qs}
    if mode == 'none' and any(v is None for v in ro.values()):
        c.raises(lambda: cls(f, aq, Q, az), ValueError, 'reject/range',
                 'no output points for a multipole')
        return
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        wc = cls(f, aq, Q, az, **kw)
        if mode == 'enforced':
            first = len(got)
            wc.initialise_sampts(az, enforce_coverage=True)
    got = [w for w in got[first if mode == 'enforced' else 0:]
           if issubclass(w.category, ConvolutionRangeWarning)]
    out = {k.index: v for k, v in wc.r_out.items()}
    c.check(set(out) == set(plain), 'range', 'multipoles %s' % list(out))
    if mode == 'enforced':
        for m, ts in plain.items():
            s = [rq[t[0]] for t in ts] + [rz[t[1]] for t in ts
                                          if t[1] != 'ic']
            a, b = max(v[0] for v in s), min(v[-1] for v in s)
            c.check(np.all(np.diff(out[m]) > 0) and
                    abs(out[m][0] - a) < 1e-9*a and
                    abs(out[m][-1] - b) < 1e-9*b and
                    len(out[m]) == min(len(v) for v in s), 'range',
                    'covered range of %s: %r to %r of %r to %r'
                    % (m, out[m][0], out[m][-1], a, b))
        c.check(not got, 'range', 'a covered range is reported: %s'
                % [str(w.message) for w in got])
        c.count('enforced')
        return
    known, want = True, 0
    for m, ts in plain.items():
        c.close(out[m], ro[m], 'range', 1e-13)
        for t in ts:
            for r, k in ((rq, t[0]), (rz, t[1])):
                if k != 'ic':
                    v = covered(ro[m], r[k])
                    known &= v is not None
                    want += v is False
    if known:
        c.check(len(got) == want, 'range', '%d of %d ranges not covered '
                'reported' % (len(got), want))
        c.count('uncovered ranges', want)
    if npt == 2:
        return
    # Errors and warnings of the integral constraint.
    Z = {m: poly2(rng, hi)(rz[m], rz[m]) for m in zs}
    mono = (0, 0, 0)
    has = mono in qs and mono in zs
    if not has:
        c.raises(lambda: calc_threept_ic(aq, Q, az, Z), (
            ValueError, KeyError), 'reject/range', 'constraint without the '
            'monopole')
        return
    x = some()
    both = [m for m in qs if m in zs]
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        v = calc_threept_ic(aq, Q, az, Z, r_common=x.copy())
    c.check(np.isfinite(v), 'range', 'constraint %r' % v)
    got = [str(w.message) for w in got if 'ange' in str(w.message)]
    for r, what in ((rz, '3PCF'), (rq, 'window')):
        v = [covered(x, r[m]) for m in both]
        if None in v:
            continue
        c.check(any(what in g for g in got) == (False in v), 'range',
                'coverage %s of the %s reported as %s' % (v, what, got))
        c.count('constraint ranges')
    if isinstance(az, dict):
        c.raises(lambda: calc_threept_ic(aq, Q, {
            m: v for m, v in rz.items() if m != mono}, Z), ValueError,
            'reject/range', 'constraint without points of the monopole')
    c.raises(lambda: calc_threept_ic(
        {m: v for m, v in rq.items() if m != mono}, Q, az, Z), ValueError,
        'reject/range', 'constraint without window points of the monopole')


def case_reject(c):
    from triumvirate.winconv import (WinConvBase, ThreePointWindow,
                                     Multipole)
    rng = c.rng
    c.params(i=c.idx, s=int(rng.integers(1 << 30)))
    r = np.geomspace(1, 100, 8)
    q = {m: np.ones((8, 8)) for m in M3}
    c.raises(lambda: WinConvBase('wilson+61', r, q), ValueError, 'reject',
             'unknown named formulae')
    c.raises(lambda: WinConvBase({'000': [('000', 'ic', 1)]}, r, q),
             ValueError, 'reject', 'formulae without a true multipole')
    for ms in (['202'], ['000', '112']):
        c.raises(lambda: WinConvBase('sugiyama+19', r, {
            m: np.ones((8, 8)) for m in ms}), ValueError, 'reject',
            'missing window multipoles')
    c.raises(lambda: ThreePointWindow(
        np.ones((5, 2)), {'000': np.ones(5)}), ValueError, 'reject',
        'pairs that form no triangle')
    c.raises(lambda: ThreePointWindow(
        np.ones((6, 2)), {'202': np.ones(6)}), ValueError, 'reject',
        'pairs that form no square')
    c.raises(lambda: ThreePointWindow(
        np.ones((6, 2)), {'000': np.ones(7)}), ValueError, 'reject',
        'lengths differ')
    c.raises(lambda: Multipole(None), (ValueError, TypeError), 'reject',
             'multipole of None')


GROUPS = [
    Group('coeff', case_coeff, 40, 400),
    Group('named', case_named, 60, 600),
    Group('multipole', case_multipole, 100, 1000),
    Group('twopcf', case_twopcf, 120, 1500),
    Group('threepcf', case_threepcf, 80, 800),
    Group('ic', case_ic, 60, 600),
    Group('powspec', case_powspec, 60, 600),
    Group('powspec-default', case_powspec_default, 6, 40),
    Group('bispec', case_bispec, 40, 400),
    Group('mpi', case_mpi, 4, 30),
    Group('window', case_window, 80, 800),
    Group('resample', case_resample, 60, 600),
    Group('textfiles', case_textfiles, 30, 300),
    Group('terms', case_terms, 60, 600),
    Group('coverage', case_coverage, 100, 1000),
    Group('reject', case_reject, 2, 10),
]
