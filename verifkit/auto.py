"""Requests whose box or mesh is to be derived."""
import math

import numpy as np

from . import prog, req, trv


def mesh_numbers(L, cut, fourier):
    """Allowed mesh numbers of one axis: the smallest even ones resolving
    the cutoff, wherever rounding falls."""
    x = L*cut/math.pi if fourier else 2.*L/cut
    out = []
    for e in (1., 1. - 1e-12, 1. + 1e-12):
        n = math.ceil(x*e)
        out.append(n + n % 2)
    return out


class Auto:
    """A request whose box or mesh is to be derived."""

    def __init__(self, c, kind):
        rng = c.rng
        r = self.r = req.Req(c, kind, lo=6, hi=8)
        self.what = ['both', 'both', 'box', 'mesh'][rng.integers(4)]
        if r.conv == 'mesh-mixed':
            r.conv = 'mesh'
        if r.align and r.align[0] == 'pad' and r.align[1] == 'grid':
            r.align = ('pad', 'grid', round(float(rng.uniform(.2, .9)), 3))
        self.ptp = np.ptp(trv.xyz(r.cols[-1]), axis=0)
        least = 1.
        if r.align and r.align[0] == 'pad':
            least = 1./(1. - (r.align[2] if r.align[1] == 'box'
                              else r.align[2]/4.))*1.001
        self.expand = float(rng.uniform(least, max(2., least*1.1)))
        if rng.random() < .2 and least == 1. and r.scheme != 'ngp':
            self.expand = 1.
        if self.what != 'mesh':
            r.box = self.ptp*self.expand
        self.cut = None
        self.ns = [{int(v)} for v in r.n]
        if self.what != 'box':
            L, n = r.box.min(), 2*int(rng.integers(2, 5))
            x = n - (0. if rng.random() < .3 else rng.uniform(0., 1.99))
            self.cut = math.pi*x/L if r.fourier else 2.*L/x
            ns = [mesh_numbers(a, self.cut, r.fourier) for a in r.box]
            r.n = np.array([v[0] for v in ns])
            self.ns = [set(v) for v in ns]
        r.bs, r.edges, r.cen = trv.rand_edges(rng, r.box, r.n, r.space,
                                              r.npt, nmax=3)
        if r.npt == 3 and r.form in ('off-diag', 'row'):
            r.idx = int(np.clip(r.idx, 1 - len(r.cen), len(r.cen) - 1))
        self.settle()

    def settle(self):
        r = self.r
        r.pos = [trv.periodise(r.cols[0], r.box)] if r.cat == 'sim' or (
            r.cat == 'random' and r.align[0] == 'centre') \
            else trv.place(r.cols, r.box, r.n, r.align)
        r.norm = r.normalisation()

    def over(self):
        o = {}
        if self.what != 'mesh':
            o.update(boxsize=dict(x=None, y=None, z=None),
                     expand=self.expand)
        if self.what != 'box':
            o.update(ngrid=dict(x=None, y=None, z=None),
                     cutoff_nyq=self.cut)
        return o

    def program(self):
        o = {}
        if self.what != 'mesh':
            o.update(boxsize_x=0., boxsize_y=0., boxsize_z=0.,
                     expand=self.expand)
        if self.what != 'box':
            o.update(ngrid_x=0, ngrid_y=0, ngrid_z=0, cutoff_nyq=self.cut)
        return o

    def describe(self, c, **kw):
        d = self.r.describe()
        d.update(kw)
        c.params(derive=self.what, expand=self.expand, cutoff=self.cut, **d)

    def reported(self, c, head, key):
        """Box and mesh of a header are as expected; adopts the mesh."""
        r = self.r
        b = prog.header_numbers(head, 'box size')
        n = prog.header_numbers(head, 'mesh number')
        ok = c.check(b is not None and np.allclose(b, r.box, rtol=1e-9,
                                                   atol=6e-4),
                     'box/' + key, 'box %s instead of %s' % (b, r.box))
        ok &= c.check(n is not None and all(
            int(a) in s for a, s in zip(n, self.ns)), 'mesh/' + key,
            'mesh %s instead of %s' % (n, self.ns))
        if ok:
            r.n = np.array(n, dtype=int)
            self.settle()
        return ok
