"""Measurements and transforms of one seed, with one thread, for comparison
between builds and environments that fill fresh memory differently.

usage: python -m verifkit.filled SEED COUNT OUTPUT
"""
import io
import pickle
import sys
import tempfile
import warnings

import numpy as np

from verifkit import req, trv


class Case:
    """What a request needs of a case."""

    def __init__(self, seed, idx, scratch):
        self.rng = np.random.default_rng([seed, idx])
        self.idx, self.scratch, self.tier = idx, scratch, 'quick'

    def count(self, *a):
        pass


def measured(c):
    r = req.Req(c, req.KINDS[c.rng.integers(len(req.KINDS))], lo=4, hi=7)
    if r.cat != 'sim' and c.rng.random() < .5:
        r.los = [trv.unit(c.rng.normal(0, 1, (len(q['x']), 3)))
                 for q in r.cols]
    cats = r.cats()
    over = {}
    if c.rng.random() < .3:     # derived box and mesh
        over = dict(boxsize=dict(x=None, y=None, z=None), expand=1.3)
    got = dict(r.run(cats=cats, over=over))
    for i, k in enumerate(cats):
        for a in ('x', 'y', 'z', 'nz', 'ws', 'wc'):
            got['cat%d-%s' % (i, a)] = np.array(k[a])
    return r.describe(), got


def vectors(c):
    from triumvirate.fieldmesh import record_binned_vectors
    r = req.Req(c, lo=4, hi=7)
    v = record_binned_vectors(r.binning(), paramset=r.paramset(
        form='full', statistic_type=r.stat))
    return r.describe(), {k: np.array(v[k]) for k in v.dtype.names}


def transformed(c):
    from triumvirate._fftlog import HankelTransform
    from triumvirate.transforms import (DoubleSphericalBesselTransform,
                                        SphericalBesselTransform)
    rng = c.rng
    n = int(rng.choice([4, 6, 8, 16, 64]))
    x = np.exp(rng.uniform(-3, 2) + np.arange(n)*rng.uniform(.01, .5))
    f = np.exp(rng.uniform(-2, 2)*np.log(x))
    ext = int(rng.integers(0, 4))
    ell = int(rng.integers(0, 4))
    which = int(rng.integers(3))
    if which == 0:
        h = HankelTransform(ell + .5, float(rng.choice([0., .3])), x, 1.,
                            lowring=bool(rng.integers(2)), extrap=ext,
                            extrap_exp=float(rng.choice([1., 2., 3.3])))
        out = [h.transform(f), h.transform(2*f)]
    elif which == 1:
        h = SphericalBesselTransform(
            ell, 0, x, lowring=bool(rng.integers(2)), extrap=ext,
            extrap_layer=['outer', 'native'][rng.integers(2)])
        out = [h.transform(f), h.transform(2*f)]
    else:
        h = DoubleSphericalBesselTransform(
            [ell, int(rng.integers(0, 4))], [0, 0], x,
            lowring=bool(rng.integers(2)))
        out = [h.transform(np.outer(f, f))]
    return dict(transform=which, n=n, ext=ext, ell=ell), {
        '%d-%d' % (i, j): np.array(v) for i, o in enumerate(out)
        for j, v in enumerate(o)}


def main(seed, count, name):
    warnings.simplefilter('ignore')
    out = []
    with tempfile.TemporaryDirectory() as d:
        for i in range(count):
            c = Case(seed, i, d)
            func = [measured, measured, vectors, transformed][i % 4]
            buf, old = io.StringIO(), sys.stdout
            sys.stdout = buf
            try:
                out.append(func(c))
            except Exception as e:
                out.append((func.__name__, {'raised': np.array(repr(e))}))
            finally:
                sys.stdout = old
    with open(name, 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3])
