"""Runs cases of a check in its own process and journals what it observed."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np


class Group:
    """One family of cases of a check."""

    def __init__(self, name, func, quick, thorough=None, env=None):
        self.name, self.func = name, func
        self.env = env or {}        # of the workers that run it
        self.quick = quick
        self.thorough = 10 * quick if thorough is None else thorough

    def count(self, tier):
        return self.quick if tier == 'quick' else self.thorough


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist() if x.size < 40 else
                         {'shape': x.shape, 'head': x.ravel()[:6].tolist()})
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Case:
    """Handle given to a case function."""

    def __init__(self, out, prop, group, idx, seed, tier, scratch):
        self.out, self.group, self.idx, self.tier = out, group, idx, tier
        self.prop, self.seed = prop, seed
        self.rng = np.random.default_rng(
            [seed, zlib.crc32((prop + group).encode()), idx])
        self.scratch = scratch
        self.n = 0
        self.sig = None
        self.desc = None
        self.counters = {}
        self.maxdev = {}
        self.failed = False

    # -- description -----------------------------------------------------
    def params(self, **kw):
        """Describe the case; its parameters make it distinct."""
        self.desc = _jsonable(kw)
        self.sig = [self.group, self.desc]
        self._emit(ev='begin', params=self.desc)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def _emit(self, **rec):
        rec.update(group=self.group, idx=self.idx)
        self.out.write(json.dumps(rec) + '\n')
        self.out.flush()

    # -- oracle ----------------------------------------------------------
    def fail(self, key, msg, **detail):
        self.failed = True
        self._emit(ev='violation', key=key, msg=str(msg)[:600],
                   detail=dict(params=self.desc, **_jsonable(detail)))

    def check(self, cond, key, msg, **detail):
        self.n += 1
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)

    def close(self, got, want, key, tol=1e-9, scale=None, msg='', atol=0.,
              **detail):
        """|got - want| <= tol·scale, scale defaulting to max |want|."""
        self.n += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, '%s shape %s instead of %s'
                      % (msg, got.shape, want.shape), **detail)
            return False
        if got.size == 0:
            return True
        gn, wn = np.isnan(got), np.isnan(want)
        if (gn != wn).any():
            self.fail(key, '%s NaN mismatch' % msg, got=got, want=want,
                      **detail)
            return False
        if gn.all():
            return True
        same = got == want   # equal infinities
        with np.errstate(invalid='ignore'):
            diff = np.where(gn | same, 0., np.abs(got - want))
        if scale is None:
            fin = np.abs(want[np.isfinite(want)])
            scale = float(fin.max()) if fin.size else 0.
        dev = float(np.max(diff))
        rel = dev / scale if scale else dev
        if np.isfinite(rel):
            k = key.split('/')[0]
            self.maxdev[k] = max(self.maxdev.get(k, 0.), rel)
        if not dev <= tol * scale + atol:
            self.fail(key, '%s deviates by %.3g (relative %.3g)'
                      % (msg, dev, rel), got=got, want=want, **detail)
            return False
        return True

    def raises(self, func, exc, key, msg):
        """`func` must raise one of `exc`."""
        self.n += 1
        try:
            func()
        except exc:
            return True
        except Exception as e:
            self.fail(key, '%s: raised %r' % (msg, e))
            return False
        self.fail(key, '%s: accepted' % msg)
        return False


def _from_code_under_test(tb):
    """Was the exception raised in triumvirate, called by the check?"""
    files = [f.filename for f in traceback.extract_tb(tb)]
    for f in reversed(files):
        g = f.replace('\\', '/')
        if '/verifkit/' in g or '/checks/' in g:
            return False
        if 'triumvirate/' in g or g.endswith('.pyx'):
            return True
    return False


def main():
    tpath, jpath = sys.argv[1:3]
    with open(tpath) as fh:
        job = json.load(fh)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    out = open(jpath, 'a')
    mod = importlib.import_module('checks.' + job['prop'])
    groups = {g.name: g for g in mod.GROUPS}
    for gname, idx in job['tasks']:
        if time.time() > job['deadline']:
            break
        c = Case(out, job['prop'], gname, idx, job['seed'], job['tier'],
                 job['scratch'])
        c._emit(ev='begin', params=None)
        try:
            groups[gname].func(c)
        except Exception as e:
            text = ''.join(traceback.format_exception(e))[-4000:]
            if _from_code_under_test(e.__traceback__):
                c.fail('exception:' + gname,
                       'raised %s: %s' % (type(e).__name__, e),
                       traceback=text)
            else:
                c._emit(ev='error', msg='case %s/%s: %s' % (gname, idx, text))
        if c.counters:
            c._emit(ev='counters', counters=c.counters)
        c._emit(ev='end', n=c.n, sig=c.sig, maxdev=c.maxdev,
                sample=c.desc)
    out.write(json.dumps({'ev': 'stop', 'group': None, 'idx': None}) + '\n')
    out.flush()
    # Skip interpreter teardown: other libraries' destructors are not ours.
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
