"""Mesh assignment: recorded meshes against direct kernel sums.

The harness (harness/mesh.cpp) drives the public field class and records the
complex mesh after the field is computed, Fourier transformed, compensated,
transformed back and weighted by the wide-angle power law.
"""
import os
import subprocess

import numpy as np

from verifkit import ref, trv
from verifkit.build import clean_env, san_env
from verifkit.worker import Group

RULE = ('Random meshes (cubic or not, odd or even), boxes, schemes, '
        'interlacing, field kinds, harmonics, alpha and particles, a third of '
        'them on cell edges, cell centres or box faces; a case is one field '
        'whose every mesh value is compared at five stages; distinct by all '
        'of these parameters.')

OPS = ['unweighted', 'fluctuation', 'complex-weights', 'ylm-pair', 'ylm',
       'quad-pair', 'quad']


def prepare(build):
    return {'TRV_MESH': build.harness('mesh'),
            'TRV_MESH_SAN': build.harness('mesh', san=True)}


def particles(rng, num, box, n, special):
    p = trv.clustered(rng, num, box)
    if special:
        cell = box / n
        kind = rng.random((num, 3))
        k = rng.integers(0, n + 1, (num, 3))
        p = np.where(kind < 0.25, k * cell, p)
        half = (k % n + 0.5) * cell
        p = np.where((kind > 0.25) & (kind < 0.4), half, p)
        p = np.where((kind > 0.4) & (kind < 0.45), np.nextafter(box, 0), p)
        p = np.where((kind > 0.45) & (kind < 0.5), box, p)
        p = np.where((kind > 0.5) & (kind < 0.55),
                     np.nextafter(k * cell, 0), p)
        p = np.clip(p, 0, box)
    return p


def write(fn, n, box, scheme, il, op, ell, m, alpha, twice, wa, cats):
    with open(fn, 'wb') as fh:
        fh.write(np.asarray(n, '<i4').tobytes())
        fh.write(np.asarray(box, '<f8').tobytes())
        fh.write(np.asarray([trv.SCHEMES.index(scheme), il, op, ell, m],
                            '<i4').tobytes())
        fh.write(np.asarray([alpha], '<f8').tobytes())
        fh.write(np.asarray([twice, wa[0], wa[1]], '<i4').tobytes())
        for c in cats:
            if c is None:
                fh.write(np.asarray([0], '<i4').tobytes())
                continue
            fh.write(np.asarray([len(c['pos'])], '<i4').tobytes())
            fh.write(np.column_stack([
                c['pos'], c['nz'], c['ws'], c['wc'], c['los'],
                c['w'].real, c['w'].imag]).astype('<f8').tobytes())


def run(c, name, *args):
    src = os.path.join(c.scratch, 'in.bin')
    dst = os.path.join(c.scratch, 'out.bin')
    write(src, *args)
    san = name == 'TRV_MESH_SAN'
    env = san_env(preload=False, OMP_NUM_THREADS=2) if san else clean_env()
    r = subprocess.run([os.environ[name], src, dst], env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=120)
    if not c.check(r.returncode == 0, 'crash', 'the mesh program ended with '
                   '%d' % r.returncode, log=r.stdout[-3000:]):
        return None
    return np.fromfile(dst, '<f8')


def case(c, special, name='TRV_MESH'):
    rng = c.rng
    n = rng.integers(4, 11, 3)
    box = np.round(rng.uniform(300., 1500., 3), 2)
    if special and rng.random() < 0.5:   # exact cell sizes
        box = n * rng.choice([32., 64., 100., 50.5])
    scheme = trv.SCHEMES[rng.integers(4)]
    il = int(rng.random() < 0.5)
    op = int(rng.integers(len(OPS)))
    ell = int(rng.integers(0, 5))
    m = int(rng.integers(-ell, ell + 1))
    alpha = float(rng.choice([1., 0.1, 0.37, 2.5]))
    twice = int(rng.random() < 0.3)
    wa = [(0, 0), (1, 0), (0, 2), (2, 1)][rng.integers(4)]
    cats = []
    for i in range(2):
        num = int(rng.integers(1, 120))
        cats.append(dict(
            pos=particles(rng, num, box, n, special),
            nz=rng.uniform(0.1, 1., num),
            ws=rng.uniform(0.3, 2., num), wc=rng.uniform(0.3, 2., num),
            los=trv.unit(rng.normal(0, 1, (num, 3))),
            w=rng.normal(0, 1, num) + 1j*rng.normal(0, 1, num)))
    c.params(ngrid=n, box=box, scheme=scheme, interlace=il, field=OPS[op],
             ell=ell, m=m, alpha=alpha, reused=twice, wa=wa,
             particles=[len(x['pos']) for x in cats], special=special)
    out = run(c, name, n, box, scheme, il, op, ell, m, alpha, twice, wa, cats)
    if out is None:
        return
    nm = int(np.prod(n))
    if not c.check(out.size == 10*nm + 2, 'output', 'mesh dump incomplete'):
        return
    st = [out[2*i*nm:2*(i+1)*nm].view(complex).reshape(n) for i in range(5)]
    g = ref.Grid(box, n, scheme, bool(il))
    a, b = cats
    wa_, wb_ = a['ws']*a['wc'], b['ws']*b['wc']
    ya, yb = ref.ylm(ell, m, a['los']), ref.ylm(ell, m, b['los'])
    one = np.ones(len(a['pos']))
    terms = {
        0: [(1., a['pos'], one)],
        1: [(1., a['pos'], one), (-1., None, len(one)/g.vol)],
        2: [(1., a['pos'], a['w'])],
        3: [(1., a['pos'], ya*wa_), (-alpha, b['pos'], yb*wb_)],
        4: [(alpha, a['pos'], ya*wa_)],
        5: [(1., a['pos'], np.conj(ya)*wa_**2),
            (alpha**2, b['pos'], np.conj(yb)*wb_**2)],
        6: [(alpha**2, a['pos'], np.conj(ya)*wa_**2)],
    }[op]
    scale = max(sum(abs(k)*np.abs(w).sum() for k, p, w in terms
                    if p is not None) / g.vcell, 1e-300)

    def mesh(shift):
        tot = 0.
        for k, p, w in terms:
            tot = tot + k * (w if p is None else ref.deposit(
                p, w, box, n, scheme, shift))
        return tot * np.ones(n)
    # Total weight, whatever the position.
    total = sum(k * (len(one) if p is None else np.sum(w))
                for k, p, w in terms)
    c.count('particles assigned', sum(len(p) for k, p, w in terms
                                      if p is not None))
    c.close(st[0].sum()*g.vcell, total, 'conservation', 1e-11,
            scale*g.vcell, msg='total weight on the mesh')
    if scheme == 'ngp' and special:
        # Nearest point is ambiguous half-way; the total still counts, also
        # of the interlaced mesh (zero mode).
        c.close(st[1][0, 0, 0], total, 'conservation', 1e-11, scale*g.vcell,
                msg='zero mode')
    else:
        m0 = mesh(0.)
        c.close(st[0], m0, 'kernel', 1e-11, scale, msg='%s mesh'
                % OPS[op])
        fk = g.fft(m0, mesh(0.5) if il else None)
        c.close(st[1], fk, 'fourier', 1e-11, scale*g.vcell,
                msg='Fourier mesh')
    comp = st[1] / g.window
    c.close(st[2], comp, 'compensation', 1e-11, np.abs(comp).max(),
            msg='compensated mesh')
    back = g.ifft(st[2])
    c.close(st[3], back, 'inverse', 1e-11, np.abs(back).max(),
            msg='inverse transform')
    if wa != (0, 0):
        r = np.where(g.r > 0, g.r, 1.)
        want = st[3] * r**(-wa[0]-wa[1])
        c.close(st[4], want, 'wide-angle', 1e-11, np.abs(want).max(),
                msg='power-law kernel')
    if not (scheme == 'ngp' and special):
        d = ref.deposit(a['pos'], wa_, box, n, scheme).real
        for i, order in enumerate((2, 3)):
            want = 1. / ((d**order).sum() * g.vcell)
            c.close(out[10*nm + i], want, 'mesh-norm', 1e-11,
                    msg='mesh normalisation of order %d' % order)


GROUPS = [
    Group('random', lambda c: case(c, False), 250, 2500),
    Group('boundaries', lambda c: case(c, True), 250, 2500),
    Group('sanitised', lambda c: case(c, c.idx % 2 == 0, 'TRV_MESH_SAN'),
          100, 800),
]
