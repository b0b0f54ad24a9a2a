"""Independent reference model of Triumvirate's estimators (numpy/scipy).

Written from the published definitions (Sugiyama et al. 2019, Hand et al.
2017, Jing 2005, Sefusatti et al. 2016): direct deposit with B-spline
windows, numpy FFTs, explicit sums.  Shares no code with the project.
"""
import numpy as np
from scipy.special import sph_harm_y, spherical_jn

ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}


# -- mesh ---------------------------------------------------------------
def bspline(d, order):
    """Mass-assignment kernel at grid distance `d` (grid cell units)."""
    a = np.abs(d)
    if order == 1:
        return np.where((d >= -0.5) & (d < 0.5), 1., 0.)
    if order == 2:
        return np.where(a < 1, 1 - a, 0.)
    if order == 3:
        return np.where(a < 0.5, 0.75 - d**2,
                        np.where(a < 1.5, 0.5 * (1.5 - a)**2, 0.))
    if order == 4:
        return np.where(a < 1, (4 - 6*a**2 + 3*a**3) / 6.,
                        np.where(a < 2, (2 - a)**3 / 6., 0.))
    raise ValueError(order)


def deposit(pos, wgt, box, ngrid, scheme, shift=0.):
    """Number-density mesh with periodic wrapping of `wgt` (complex)."""
    order = ORDER[scheme]
    ngrid = np.asarray(ngrid, int)
    box = np.asarray(box, float)
    loc = np.asarray(pos, float) * ngrid / box + shift
    base = np.floor(loc).astype(np.int64)
    mesh = np.zeros(tuple(ngrid), complex)
    offs = range(-2, 4)
    kern = [[bspline(loc[:, ax] - (base[:, ax] + o), order) for o in offs]
            for ax in range(3)]
    wgt = np.asarray(wgt, complex)
    flat = mesh.reshape(-1)
    for a, oa in enumerate(offs):
        if not kern[0][a].any():
            continue
        for b, ob in enumerate(offs):
            if not kern[1][b].any():
                continue
            for c, oc in enumerate(offs):
                kk = kern[0][a] * kern[1][b] * kern[2][c]
                if not kk.any():
                    continue
                idx = ((((base[:, 0] + oa) % ngrid[0]) * ngrid[1]
                        + ((base[:, 1] + ob) % ngrid[1])) * ngrid[2]
                       + ((base[:, 2] + oc) % ngrid[2]))
                np.add.at(flat, idx, kk * wgt)
    return mesh / (np.prod(box) / np.prod(ngrid))


class Grid:
    def __init__(self, box, ngrid, scheme, interlace=False):
        self.box = np.asarray(box, float)
        self.n = np.asarray(ngrid, int)
        self.scheme = scheme
        self.order = ORDER[scheme]
        self.interlace = interlace
        self.vol = float(np.prod(self.box))
        self.nmesh = int(np.prod(self.n))
        self.vcell = self.vol / self.nmesh
        idx = [np.where(np.arange(n) < n / 2., np.arange(n), np.arange(n) - n)
               for n in self.n]
        self.idx = np.meshgrid(*idx, indexing='ij')
        self.kv = np.stack([2*np.pi/self.box[a] * self.idx[a]
                            for a in range(3)], -1)
        self.rv = np.stack([self.box[a]/self.n[a] * self.idx[a]
                            for a in range(3)], -1)
        self.k = np.sqrt((self.kv**2).sum(-1))
        self.r = np.sqrt((self.rv**2).sum(-1))
        u = [np.pi * self.idx[a] / self.n[a] for a in range(3)]
        self.u = u
        self.window = np.prod([np.sinc(ui / np.pi) for ui in u],
                              axis=0)**self.order
        self.alias = self._alias()

    def _alias(self):
        def c1(s2, order):
            if order == 1:
                return np.ones_like(s2)
            if order == 2:
                return 1 - 2/3.*s2
            if order == 3:
                return 1 - s2 + 2/15.*s2**2
            return 1 - 4/3.*s2 + 2/5.*s2**2 - 4/315.*s2**3
        if self.interlace:
            uh = np.sqrt(sum(ui**2 for ui in self.u)) / 2.
            return np.cos(uh)**(2*self.order) * c1(np.sin(uh)**2, self.order)
        return np.prod([c1(np.sin(ui)**2, self.order) for ui in self.u],
                       axis=0)

    # pk correction: interlaced -> W^2 of the assignment; otherwise -> C1.
    @property
    def win2(self):
        return self.window**2 if self.interlace else self.alias

    def fft(self, mesh, mesh_s=None):
        f = np.fft.fftn(mesh) * self.vcell
        if self.interlace:
            fs = np.fft.fftn(mesh_s) * self.vcell
            m = sum(self.idx[a] / self.n[a] for a in range(3))
            f = 0.5 * (f + np.exp(1j*np.pi*m) * fs)
        return f

    def ifft(self, fk):
        return np.fft.ifftn(fk) * self.nmesh / self.vol

    def field_k(self, parts):
        """Fourier transform of Σ coeff × deposit(pos, wgt) terms."""
        m = ms = 0.
        for coeff, pos, wgt in parts:
            if pos is None:   # uniform background: wgt is the density
                m = m + coeff * wgt
                ms = ms + coeff * wgt
                continue
            m = m + coeff * deposit(pos, wgt, self.box, self.n, self.scheme)
            if self.interlace:
                ms = ms + coeff * deposit(pos, wgt, self.box, self.n,
                                          self.scheme, 0.5)
        return self.fft(m, ms if self.interlace else None)


def ylm(ell, m, vec):
    """Reduced spherical harmonic sqrt(4π/(2l+1)) Y*_lm at vectors."""
    vec = np.asarray(vec, float)
    r = np.sqrt((vec**2).sum(-1))
    if ell == 0:
        return np.ones(r.shape, complex)
    with np.errstate(invalid='ignore', divide='ignore'):
        mu = np.where(r > 0, vec[..., 2] / np.where(r > 0, r, 1), 1.)
    theta = np.arccos(np.clip(mu, -1, 1))
    phi = np.arctan2(vec[..., 1], vec[..., 0])
    y = np.sqrt(4*np.pi/(2*ell+1)) * np.conj(sph_harm_y(ell, m, theta, phi))
    return np.where(r < 1e-9, 0., y)


_W3J = {}


def w3j(*args):
    if args not in _W3J:
        from sympy.physics.wigner import wigner_3j
        _W3J[args] = float(wigner_3j(*args))
    return _W3J[args]


# -- catalogues ---------------------------------------------------------
class Cat:
    """Plain particle data already placed in the box."""
    def __init__(self, pos, nz=None, ws=None, wc=None, los=None):
        self.pos = np.asarray(pos, float)
        n = len(self.pos)
        one = np.ones(n)
        self.nz = one*0 if nz is None else np.asarray(nz, float)*one
        self.ws = one if ws is None else np.asarray(ws, float)*one
        self.wc = one if wc is None else np.asarray(wc, float)*one
        self.w = self.ws * self.wc
        self.los = los
        self.n = n


def dn_lm(g, data, rand, alpha, ell, m):
    return g.field_k([
        (1., data.pos, ylm(ell, m, data.los) * data.w),
        (-alpha, rand.pos, ylm(ell, m, rand.los) * rand.w)])


def n_lm(g, rand, alpha, ell, m):
    return g.field_k([(alpha, rand.pos, ylm(ell, m, rand.los) * rand.w)])


def quad_lm(g, parts, ell, m):
    return g.field_k([
        (a**2, c.pos, np.conj(ylm(ell, m, c.los)) * c.w**2)
        for a, c in parts])


def s_lm(parts, power, ell, m):
    return sum(a**power * (ylm(ell, m, c.los) * c.w**power).sum()
               for a, c in parts)


# -- normalisation ------------------------------------------------------
def norm_particle(cat, alpha, npt):
    if npt == 2:
        return 1. / (alpha * (cat.ws * cat.nz * cat.wc**2).sum())
    return 1. / (alpha * (cat.ws * cat.nz**2 * cat.wc**3).sum())


def norm_mesh(g, cat, alpha, npt):
    d = deposit(cat.pos, cat.w, g.box, g.n, g.scheme).real
    return 1. / ((d**npt).sum() * g.vcell) / alpha**npt


# -- binning ------------------------------------------------------------
def in_bins(x, edges, res=None):
    """Bin memberships, x quantised to `res` if not None."""
    q = x if res is None else np.floor(x / res + 1e-9) * res + 1e-9*res
    return [(edges[i] <= q) & (q < edges[i+1]) for i in range(len(edges)-1)]


def binned(g, coord, values, edges, centres, res=None):
    out_n, out_x, out_v = [], [], []
    for i, sel in enumerate(in_bins(coord, edges, res)):
        n = int(sel.sum())
        out_n.append(n)
        out_x.append(coord[sel].mean() if n else centres[i])
        out_v.append(values[sel].mean() if n else 0.)
    return np.array(out_n), np.array(out_x), np.array(out_v, complex)


RES_K, RES_R, RES_R3 = 1e-5, 0.1, 1.


def twopt_fourier(g, fa, fb, amp, ell, m, edges, centres):
    y = ylm(ell, m, g.kv)
    n, k, pk = binned(g, g.k, fa*np.conj(fb)/g.win2*y, edges, centres, RES_K)
    _, _, sn = binned(g, g.k, amp*g.alias/g.win2*y, edges, centres, RES_K)
    return n, k, pk, sn


def twopt_config_mesh(g, fa, fb, amp):
    return g.ifft((fa*np.conj(fb) - amp*g.alias) / g.win2)


def twopt_config(g, fa, fb, amp, ell, m, edges, centres):
    xi = twopt_config_mesh(g, fa, fb, amp)
    return binned(g, g.r, xi*ylm(ell, m, g.rv), edges, centres, RES_R)


def coupling2(ell, m, M):
    """Σ over m with (2L+1) and the 3-j orthogonality: only m = -M."""
    return (2*ell + 1)**2 * (1 if m == -M else 0) * (
        w3j(ell, 0, ell, 0, 0, 0) * w3j(ell, 0, ell, m, 0, M))


def powspec(g, data, rand, alpha, ell, edges, centres, norm):
    d0 = dn_lm(g, data, rand, alpha, 0, 0)
    pk = sn = 0.
    for M in range(-ell, ell+1):
        dm = dn_lm(g, data, rand, alpha, ell, M)
        amp = s_lm([(1., data), (alpha, rand)], 2, ell, M)
        n, k, p, s = twopt_fourier(g, dm, d0, amp, ell, -M, edges, centres)
        c = coupling2(ell, -M, M)
        pk = pk + c * p
        sn = sn + c * s
    return dict(nmodes=n, keff=k, pk_raw=norm*pk, pk_shot=norm*sn)


def corrfunc(g, data, rand, alpha, ell, edges, centres, norm):
    d0 = dn_lm(g, data, rand, alpha, 0, 0)
    xi = 0.
    for M in range(-ell, ell+1):
        dm = dn_lm(g, data, rand, alpha, ell, M)
        amp = s_lm([(1., data), (alpha, rand)], 2, ell, M)
        n, r, x = twopt_config(g, dm, d0, amp, ell, -M, edges, centres)
        xi = xi + coupling2(ell, -M, M) * x
    return dict(npairs=n, reff=r, xi=norm*xi)


def corrfunc_window(g, rand, alpha, ell, edges, centres, norm):
    d0 = n_lm(g, rand, alpha, 0, 0)
    xi = 0.
    for M in range(-ell, ell+1):
        dm = n_lm(g, rand, alpha, ell, M)
        amp = s_lm([(alpha, rand)], 2, ell, M)
        n, r, x = twopt_config(g, dm, d0, amp, ell, -M, edges, centres)
        xi = xi + coupling2(ell, -M, M) * x
    return dict(npairs=n, reff=r, xi=norm*xi)


def dn_box(g, cat):
    return g.field_k([(1., cat.pos, np.ones(cat.n)),
                      (-1., None, cat.n / g.vol)])


def powspec_box(g, cat, ell, edges, centres, norm):
    d = dn_box(g, cat)
    n, k, p, s = twopt_fourier(g, d, d, float(cat.n), ell, 0, edges, centres)
    c = 2*ell + 1
    return dict(nmodes=n, keff=k, pk_raw=norm*c*p, pk_shot=norm*c*s)


def corrfunc_box(g, cat, ell, edges, centres, norm):
    d = dn_box(g, cat)
    n, r, x = twopt_config(g, d, d, float(cat.n), ell, 0, edges, centres)
    return dict(npairs=n, reff=r, xi=norm*(2*ell+1)*x)


# -- three-point --------------------------------------------------------
def dv_bins(form, nb, idx_bin, symmetric):
    """(row, col) bin indices of the data vector, in output order."""
    if form == 'diag':
        return [(i, i) for i in range(nb)]
    if form == 'off-diag':
        a = abs(idx_bin)
        pairs = [(i, i+a) for i in range(nb-a)]
        return pairs if idx_bin >= 0 else [(c, r) for r, c in pairs]
    if form == 'row':
        return [(idx_bin, j) for j in range(nb)]
    if symmetric:
        return [(i, j) for i in range(nb) for j in range(i, nb)]
    return [(i, j) for i in range(nb) for j in range(nb)]


def terms(l1, l2, L, gpp):
    """Spherical orders, one of each (m, -m) pair, and its coupling."""
    done = set()
    for m1 in range(-l1, l1+1):
        for m2 in range(-l2, l2+1):
            for M in ([0] if gpp else range(-L, L+1)):
                c = (2*l1+1)*(2*l2+1)*(2*L+1) * w3j(l1, l2, L, 0, 0, 0) \
                    * w3j(l1, l2, L, m1, m2, M)
                if abs(c) < 1e-10 or (-m1, -m2, -M) in done:
                    continue
                done.add((m1, m2, M))
                yield m1, m2, M, c, (m1, m2, M) == (0, 0, 0)


class ThreePt:
    """Fields needed by the three-point estimators."""
    def __init__(self, g, data=None, rand=None, alpha=None, box=None,
                 window=None):
        self.g = g
        if box is not None:
            cat = box
            self.gpp = True
            d = dn_box(g, cat)
            q = g.field_k([(1., cat.pos, np.ones(cat.n))])
            self.dn = lambda L, M: d
            self.quad = lambda L, M: q
            self.sbar = lambda L, M: float(cat.n)
        else:
            self.gpp = False
            if window is not None:
                cats = [(alpha, window)]
                self._dn = lambda L, M: n_lm(g, window, alpha, L, M)
            else:
                cats = [(1., data), (alpha, rand)]
                self._dn = lambda L, M: dn_lm(g, data, rand, alpha, L, M)
            self.quad = lambda L, M: quad_lm(g, cats, L, M)
            self.sbar = lambda L, M: s_lm(cats, 3, L, M)
            self.dn = self._dn
        self.d0 = self.dn(0, 0)
        self.n0 = self.quad(0, 0)

    def G(self, L, M):
        return self.g.ifft(self.dn(L, M) / self.g.window)


def bispec(t, l1, l2, L, form, idx_bin, edges, centres, norm):
    g = t.g
    nb = len(edges) - 1
    dv = dv_bins(form, nb, idx_bin, l1 == l2)
    sel = in_bins(g.k, edges)
    nm = np.array([int(s.sum()) for s in sel])
    ke = np.array([g.k[s].mean() if s.any() else np.nan for s in sel])
    bk = np.zeros(len(dv), complex)
    sn = np.zeros(len(dv), complex)
    phase = 1j**(l1 + l2)
    fk = t.d0 / g.window
    for m1, m2, M, c, zero in terms(l1, l2, L, t.gpp):
        mir = 0. if zero else (-1.)**L
        mir3 = 0. if zero else 1.
        G = t.G(L, M)
        ya, yb = ylm(l1, m1, g.kv), ylm(l2, m2, g.kv)
        Fa = [np.fft.ifftn(np.where(s, fk*ya, 0))*g.nmesh/s.sum()
              for s in sel]
        Fb = [np.fft.ifftn(np.where(s, fk*yb, 0))*g.nmesh/s.sum()
              for s in sel]
        sb = t.sbar(L, M)
        qlm = t.quad(L, M)
        s12 = np.zeros(len(dv), complex)
        if l1 == 0 and l2 == 0:
            s12 += c * sb
        if l2 == 0:
            _, _, p, s = twopt_fourier(g, t.d0, qlm, sb, l1, m1,
                                       edges, centres)
            v = c*(p - s)
            v = v + mir*np.conj(v)
            s12 += np.array([v[a] for a, b in dv])
        if l1 == 0:
            _, _, p, s = twopt_fourier(g, t.d0, qlm, sb, l2, m2,
                                       edges, centres)
            v = c*(p - s)
            v = v + mir*np.conj(v)
            s12 += np.array([v[b] for a, b in dv])
        xi = twopt_config_mesh(g, t.dn(L, M), t.n0, sb)
        yr = ylm(l1, m1, g.rv) * ylm(l2, m2, g.rv)
        for i, (a, b) in enumerate(dv):
            v = (Fa[a]*Fb[b]*G).sum()
            bk[i] += c*g.vcell*(v + mir*np.conj(v))
            v = c*g.vcell*(xi*yr*spherical_jn(l1, ke[a]*g.r)
                           * spherical_jn(l2, ke[b]*g.r)).sum()
            s12[i] += phase*(v + mir3*np.conj(v))
        sn += s12
    A = [a for a, b in dv]
    B = [b for a, b in dv]
    return dict(k1_bin=centres[A], k2_bin=centres[B], k1_eff=ke[A],
                k2_eff=ke[B], nmodes_1=nm[A], nmodes_2=nm[B],
                bk_raw=norm*bk, bk_shot=norm*sn)


def threepcf(t, l1, l2, L, form, idx_bin, edges, centres, norm, wa=None):
    g = t.g
    nb = len(edges) - 1
    dv = dv_bins(form, nb, idx_bin, l1 == l2)
    zeta = np.zeros(len(dv), complex)
    sn = np.zeros(len(dv), complex)
    phase, par = 1j**(l1 + l2), (-1.)**(l1 + l2)
    n, re, _ = binned(g, g.r, g.r, edges, centres, RES_R3)
    fk = t.d0 / g.window
    for m1, m2, M, c, zero in terms(l1, l2, L, t.gpp):
        mir = 0. if zero else (-1.)**L
        mir3 = 0. if zero else 1.
        sb = t.sbar(L, M)
        xi = twopt_config_mesh(g, t.dn(L, M), t.n0, sb)
        yr = ylm(l1, m1, g.rv) * ylm(l2, m2, g.rv)
        _, _, s = binned(g, g.r, xi*yr, edges, centres, RES_R3)
        s = s / np.maximum(n, 1) / g.vcell * (-1.)**(l1+l2)
        s = c*par*(s + mir3*np.conj(s))
        G = t.G(L, M)
        if wa is not None:
            with np.errstate(divide='ignore'):
                G = G * np.where(g.r < 1e-6, 1., g.r**(-float(sum(wa))))
        ya, yb = ylm(l1, m1, g.kv), ylm(l2, m2, g.kv)
        Fa = [g.ifft(fk*ya*spherical_jn(l1, g.k*r)) for r in re]
        Fb = [g.ifft(fk*yb*spherical_jn(l2, g.k*r)) for r in re]
        for i, (a, b) in enumerate(dv):
            if a == b:
                sn[i] += s[a]
            v = (Fa[a]*Fb[b]*G).sum()
            zeta[i] += c*g.vcell*phase*(v + mir*np.conj(v))
    A = [a for a, b in dv]
    B = [b for a, b in dv]
    return dict(r1_bin=centres[A], r2_bin=centres[B], r1_eff=re[A],
                r2_eff=re[B], npairs_1=n[A], npairs_2=n[B],
                zeta_raw=norm*zeta, zeta_shot=norm*sn)
