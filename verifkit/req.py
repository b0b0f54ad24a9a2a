"""Random requests for measurements: one description, many ways to run."""
import numpy as np

from . import est, ref, trv

FUNCS = {
    ('powspec', 'survey'): ('twopt', 'compute_powspec'),
    ('2pcf', 'survey'): ('twopt', 'compute_corrfunc'),
    ('2pcf-win', 'random'): ('twopt', 'compute_corrfunc_window'),
    ('powspec', 'sim'): ('twopt', 'compute_powspec_in_gpp_box'),
    ('2pcf', 'sim'): ('twopt', 'compute_corrfunc_in_gpp_box'),
    ('bispec', 'survey'): ('threept', 'compute_bispec'),
    ('3pcf', 'survey'): ('threept', 'compute_3pcf'),
    ('3pcf-win', 'random'): ('threept', 'compute_3pcf_window'),
    ('bispec', 'sim'): ('threept', 'compute_bispec_in_gpp_box'),
    ('3pcf', 'sim'): ('threept', 'compute_3pcf_in_gpp_box'),
}
KINDS = list(FUNCS)


class Req:
    """A measurement that can be run repeatedly from fresh objects."""

    def __init__(self, c, kind=None, lo=6, hi=8, boxlo=600., boxhi=1500.,
                 **fix):
        rng = c.rng
        self.stat, self.cat = kind or KINDS[rng.integers(len(KINDS))]
        self.npt = 2 if self.stat in ('powspec', '2pcf', '2pcf-win') else 3
        self.fourier = self.stat in ('powspec', 'bispec')
        self.space = 'fourier' if self.fourier else 'config'
        self.scheme = trv.SCHEMES[rng.integers(4)]
        self.il = bool(self.npt == 2 and rng.random() < .5)
        self.deg = (0, 0, int(rng.integers(0, 5))) if self.npt == 2 \
            else trv.DEG3[rng.integers(len(trv.DEG3))]
        self.conv = ['particle', 'mesh', 'none'][rng.integers(3)]
        if self.npt == 2 and self.cat == 'survey' and rng.random() < .2:
            self.conv = 'mesh-mixed'
            boxlo, boxhi = 150., 400.
        self.align, self.nz, self.los = None, None, None
        kw = dict(lo=lo, hi=hi, boxlo=boxlo, boxhi=boxhi)
        if self.cat == 'survey':
            self.box, self.n, self.align, D, R, pd, pr = \
                est.setup_survey(c, **kw)
            self.cols, self.pos = [D, R], [pd, pr]
        elif self.cat == 'random':
            self.box, self.n, self.align, R, pr = \
                est.setup_random(c, **kw)
            self.cols, self.pos = [R], [pr]
        else:
            self.box, self.n, B, pb, self.nz = est.setup_box(c, **kw)
            self.cols, self.pos = [B], [pb]
        self.bs, self.edges, self.cen = trv.rand_edges(
            rng, self.box, self.n, self.space, self.npt, nmax=4)
        self.form, self.idx = est.rand_form(rng, len(self.cen)) \
            if self.npt == 3 else ('diag', 0)
        self.wa = None
        if self.stat == '3pcf-win' and rng.random() < .5:
            self.wa = [(1, 0), (0, 1), (1, 1), (2, 0)][rng.integers(4)]
        for k, v in fix.items():
            setattr(self, k, v)
        self.norm = self.normalisation()
        if not np.isfinite(self.norm):    # data and randoms do not overlap
            self.conv = 'mesh'
            self.norm = self.normalisation()

    @property
    def fn(self):
        import importlib
        m, f = FUNCS[self.stat, self.cat]
        return getattr(importlib.import_module('triumvirate.' + m), f)

    def paramset(self, **over):
        kw = dict(degrees=self.deg, assignment=self.scheme,
                  interlace=self.il, norm_convention=self.conv,
                  form=self.form, idx_bin=self.idx,
                  **(trv.align_params(self.align) if self.align else {}))
        kw.update(over)
        return trv.paramset(self.box, self.n, self.stat, self.cat,
                            self.edges, self.bs, **kw)

    def binning(self):
        from triumvirate.dataobjs import Binning
        return Binning(self.space, self.bs, self.edges[0], self.edges[-1],
                       len(self.edges) - 1)

    def cats(self, cols=None):
        return [trv.make(q) for q in cols or self.cols]

    def losargs(self, los=None):
        los = self.los if los is None else los
        if los is None or self.cat == 'sim':
            return {}
        names = ['los_data', 'los_rand'] if self.cat == 'survey' \
            else ['los_rand']
        return dict(zip(names, los))

    def run(self, cats=None, paramset=None, los=None, over=None, **kw):
        if self.wa is not None:
            kw.setdefault('wa_orders', self.wa)
        return self.fn(*(cats or self.cats()),
                       paramset=paramset or self.paramset(**(over or {})),
                       **self.losargs(los), **kw)

    def describe(self):
        return dict(stat=self.stat, catalogue=self.cat, box=self.box,
                    ngrid=self.n, scheme=self.scheme, interlace=self.il,
                    degrees=self.deg, align=self.align, norm=self.conv,
                    bins=self.bs, edges=np.round(self.edges, 5),
                    form=self.form, idx=self.idx, wa=self.wa,
                    objects=[len(p) for p in self.pos])

    def noise(self, got):
        """Scale of round-off in each complex result."""
        s = 0.
        for i, q in enumerate(self.cols):
            w = q['ws']*q['wc'] if self.cat != 'sim' \
                else np.ones(len(q['x']))       # weights not used
            a = 1.
            if self.cat == 'survey' and i == 1:
                a = trv.wstotal(self.cols[0])/trv.wstotal(q)
            s += a**self.npt * np.sum(np.abs(w)**self.npt)
        s /= 1. if self.fourier else np.prod(self.box)**(self.npt-1)
        s *= self.norm
        m = max([np.abs(v).max() for v in got.values()
                 if np.iscomplexobj(v)] + [0.])
        return max(s, m)

    def normalisation(self):
        if self.conv == 'none':
            return 1.
        q = self.cols[-1]
        a = trv.wstotal(self.cols[0])/trv.wstotal(q) \
            if self.cat == 'survey' else 1.
        if self.conv == 'mesh-mixed':
            return trv.norm_mixed(*self.cols, self.align, a)
        cat = est.boxcat(q, self.pos[-1], self.box)
        g = ref.Grid(self.box, self.n, self.scheme)
        return est.norm_of(self.conv, g, cat, a, self.npt)


def same(c, r, got, want, key, tol=1e-9, eff=1e-11, msg=''):
    """Two results of the same request agree to round-off."""
    ok = c.check(set(got) - {'header'} == set(want) - {'header'}, key,
                 '%s entries %s and %s' % (msg, sorted(got), sorted(want)))
    if not ok:
        return False
    s = r.noise(want)
    for k in want:
        if k == 'header':
            continue
        if np.iscomplexobj(want[k]):
            ok &= c.close(got[k], want[k], key, tol, s, msg=msg + ' ' + k)
        else:
            ok &= c.close(got[k], want[k], key, eff, msg=msg + ' ' + k)
    return ok


def exact(got, want):
    return set(got) - {'header'} == set(want) - {'header'} and all(
        np.array_equal(got[k], want[k], equal_nan=True)
        for k in want if k != 'header')
