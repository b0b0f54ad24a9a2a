"""Monitor of caller-owned objects around every public call.

Every public function, constructor and method of the package is wrapped.
Around a call made by the caller (not by the package itself) all arguments
are snapshotted and compared, and so are results returned earlier.
"""
import functools
import importlib
import inspect

import numpy as np

MODULES = ('twopt', 'threept', 'transforms', 'winconv', '_arrayops',
           'fieldmesh', 'catalogue', 'parameters', '_mpitools')
# Entries of parameter sets a measurement sets itself.
TYPES = {'catalogue_type', 'statistic_type', 'npoint', 'space', 'shape',
         'assignment_order', 'volume', 'nmesh'}


def is_cat(x):
    return type(x).__name__ == 'ParticleCatalogue'


def is_ps(x):
    return type(x).__name__ == 'ParameterSet'


def snap(x, depth=0):
    if depth > 7:
        return None
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ['A', [snap(v, depth + 1) for v in x.ravel()], x.shape]
        return ['a', x.copy(), x.dtype.str]
    if isinstance(x, dict):
        return ['d', [(repr(k), snap(v, depth + 1)) for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [snap(v, depth + 1) for v in x]]
    if isinstance(x, (int, float, complex, str, bytes, bool, slice,
                      np.generic)) or x is None:
        return ['s', repr(x)]
    if is_cat(x):
        cols = {k: np.array(x[k]) for k in ('nz', 'ws', 'wc')}
        if not cols['nz'].any():     # absent: may be filled with the mean
            del cols['nz']
        return ['cat', [(k, ['a', v, v.dtype.str])
                        for k, v in cols.items()]]
    name, mod = type(x).__name__, type(x).__module__
    if is_ps(x):
        return ['ps', [(k, snap(v, depth + 1)) for k, v in x.items()]]
    if name == 'Binning':
        return ['b', [(k, snap(getattr(x, k), depth + 1)) for k in (
            'space', 'scheme', 'bin_min', 'bin_max', 'num_bins', 'bin_edges',
            'bin_centres', 'bin_widths')]]
    if mod == 'triumvirate.winconv' and hasattr(x, '__dict__'):
        return ['o', [(k, snap(v, depth + 1))
                      for k, v in sorted(vars(x).items())]]
    return None


def differ(a, b, path='', skip=()):
    """Where two snapshots differ, or None."""
    if a is None or b is None:
        return None
    if a[0] != b[0]:
        return path + ' (type)'
    if a[0] == 'cat':    # an absent column may be filled
        names = {u[0] for u in a[1]}
        b = [b[0], [v for v in b[1] if v[0] in names]]
    if a[0] == 's':
        return None if a[1] == b[1] else path
    if a[0] == 'a':
        if a[2] != b[2] or a[1].shape != b[1].shape:
            return path + ' (shape or type)'
        same = a[1].tobytes() == b[1].tobytes()
        return None if same else path
    if len(a[1]) != len(b[1]):
        return path + ' (length)'
    for i, (u, v) in enumerate(zip(a[1], b[1])):
        if a[0] in ('d', 'ps', 'cat', 'b', 'o'):
            if u[0] != v[0]:
                return path + ' (entries)'
            if u[0] in skip:
                continue
            d = differ(u[1], v[1], '%s[%s]' % (path, u[0]))
        else:
            d = differ(u, v, '%s[%d]' % (path, i))
        if d:
            return d
    return None


def allowed(name, bound, ps):
    """Entries of a parameter set given to a measurement that it may set."""
    out = set(TYPES)
    sp = bound.get('sampling_params') or {}
    out |= set(sp) | {k for k in ('boxsize', 'ngrid')
                      if bound.get(k) is not None}
    if 'boxpad' in sp or 'gridpad' in sp:
        out |= {'padscale', 'padfactor'}
    if bound.get('degree') is not None or bound.get('degrees') is not None:
        out.add('degrees')
    if bound.get('wa_orders') is not None:
        out |= {'wa_orders'}
    if bound.get('binning') is not None:
        out |= {'range', 'num_bins', 'bin_min', 'bin_max'}
    if bound.get('form') is not None or bound.get('idx_bin') is not None:
        out |= {'form', 'idx_bin'}
    # Derived when left to the measurement.
    if any(v is None or v <= 0 for v in dict(ps['boxsize']).values()) \
            or 'expand' in sp:
        out.add('boxsize')
    if any(v is None or v <= 0 for v in dict(ps['ngrid']).values()) \
            or 'cutoff_nyq' in sp:
        out.add('ngrid')
    return out


class Watch:
    def __init__(self, report):
        self.report = report      # report(key, message)
        self.depth, self.calls, self.objects = 0, 0, 0
        self.names = set()
        self.kept = []
        self.undo = []

    # -- wrapping --------------------------------------------------------
    def wrap(self, fn, label, method):
        try:
            sig = inspect.signature(fn)
        except (TypeError, ValueError):
            sig = None

        @functools.wraps(fn)
        def call(*a, **k):
            if self.depth:
                return fn(*a, **k)
            args = a[1:] if method else a
            held = [('argument %d' % i, v) for i, v in enumerate(args)] + [
                ('argument %s' % n, v) for n, v in k.items()]
            skips = []
            for _, v in held:
                skip = ()
                if is_ps(v) and label.split('.')[-1].startswith(
                        ('compute_', 'record_')):
                    try:
                        bound = sig.bind_partial(*a, **k).arguments
                    except TypeError:
                        bound = {}
                    skip = allowed(label, bound, v)
                skips.append(skip)
            before = [snap(v) for _, v in held]
            kept = list(self.kept)
            self.depth += 1
            try:
                out = fn(*a, **k)
            finally:
                self.depth -= 1
                self.calls += 1
                self.names.add(label)
                for (n, v), s, skip in zip(held, before, skips):
                    if s is None:
                        continue
                    self.objects += 1
                    d = differ(s, snap(v), '', skip)
                    if d is not None:
                        self.report('input/' + label, '%s: %s changed at %s'
                                    % (label, n, d or 'itself'))
                for lab, v, s in kept:
                    d = differ(s, snap(v))
                    if d is not None:
                        self.report('result/' + lab, 'the result of %s '
                                    'changed during %s at %s'
                                    % (lab, label, d or 'itself'))
                self.kept = []
            # Results as the caller leaves them before the next call.
            self.results = (self.results + [(label, out)])[-6:]
            return out
        return call

    results = []

    def before_call(self):
        """Snapshot results kept from earlier calls."""
        self.kept = [(lab, v, snap(v)) for lab, v in self.results
                     if plain(v)]

    def install(self):
        for m in MODULES:
            mod = importlib.import_module('triumvirate.' + m)
            for n, f in list(vars(mod).items()):
                if inspect.isclass(f) and f.__module__ == mod.__name__ \
                        and isinstance(f, type) \
                        and not issubclass(f, (Exception, Warning)):
                    self.wrap_class(f, m)
                elif callable(f) and not n.startswith('_') and getattr(
                        f, '__module__', '') == mod.__name__:
                    self.set(mod, n, self.outer(f, '%s.%s' % (m, n), False))
        return self

    def outer(self, f, label, method):
        g = self.wrap(f, label, method)

        @functools.wraps(f)
        def call(*a, **k):
            if not self.depth:
                self.before_call()
            return g(*a, **k)
        return call

    def wrap_class(self, cls, m):
        for n, f in list(vars(cls).items()):
            if n.startswith('_') and n != '__init__':
                continue
            label = '%s.%s.%s' % (m, cls.__name__, n)
            try:
                if isinstance(f, classmethod):
                    self.set(cls, n, classmethod(self.outer(
                        f.__func__, label, True)))
                elif inspect.isfunction(f):
                    self.set(cls, n, self.outer(f, label, True))
            except TypeError:    # extension types
                return

    def set(self, obj, name, val):
        self.undo.append((obj, name, vars(obj)[name]))
        setattr(obj, name, val)

    def remove(self):
        for obj, name, val in reversed(self.undo):
            setattr(obj, name, val)
        self.undo = []


def plain(v):
    """Arrays and containers of arrays, owned by whom they were given to."""
    if isinstance(v, np.ndarray):
        return True
    if isinstance(v, dict):
        return all(plain(x) or isinstance(x, (str, int, float, complex))
                   for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(plain(x) or isinstance(x, (str, int, float, complex))
                   for x in v)
    return False
