"""Independent evaluation of the discrete logarithmic Hankel transform."""
import numpy as np
from scipy.special import loggamma


def log_kernel(mu, q, w):
    """log of the integral of s^(q + i w) J_mu(s) over s > 0."""
    z = q + 1j * np.asarray(w)
    return z*np.log(2.) + loggamma((mu + 1 + z)/2.) \
        - loggamma((mu + 1 - z)/2.)


def direct(x, a, mu, q, y):
    """b(y) = ∫ k dr (kr)^q J_mu(kr) a(r), a the log-periodic interpolant of
    the samples, term by term (no fast transform)."""
    x, a = np.asarray(x, float), np.asarray(a, complex)
    n = len(x)
    dl = np.log(x[-1]/x[0]) / (n - 1)
    j = np.arange(n)
    out = np.zeros(len(y), complex)
    ly = np.log(np.asarray(y) * x[0])
    for m in range(-(n//2), n//2 + 1):
        f = 0.5 if (n % 2 == 0 and abs(m) == n//2) else 1.
        c = np.sum(a * np.exp(-2j*np.pi*m*j/n)) / n
        w = 2*np.pi*m / (n*dl)
        out += f * c * np.exp(log_kernel(mu, q, w) - 1j*w*ly)
    return out


def lowring_defect(mu, q, dl, pivot):
    """Imaginary part of the phase of the coefficient at the highest
    frequency; vanishes for a low-ringing pivot."""
    w = np.pi / dl
    u = log_kernel(mu, q, w) - 1j*w*np.log(pivot)
    return float(np.sin(u.imag))


def n_ext(n, factor):
    return (int(2**np.ceil(np.log2(factor*n))) - n) // 2


def extrap(a, m, how):
    """Extrapolation laws, written out."""
    a = np.asarray(a)
    lo, hi = np.arange(m, 0, -1), np.arange(1, m + 1)
    if how == 1:
        return np.concatenate([np.zeros(m), a, np.zeros(m)])
    if how == 2:
        return np.concatenate([np.full(m, a[0]), a, np.full(m, a[-1])])
    if how == 3:
        return np.concatenate([a[0] - lo*(a[1] - a[0]), a,
                               a[-1] + hi*(a[-1] - a[-2])])
    if how == 4:
        def ratio(p, q):
            return 1. if p == 0 else p/q
        return np.concatenate([a[0]*ratio(a[0], a[1])**lo, a,
                               a[-1]*ratio(a[-1], a[-2])**hi])
    return a
