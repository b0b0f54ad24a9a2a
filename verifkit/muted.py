"""Reuse of other checks' cases as workloads for another monitor."""
import importlib

from .worker import Case


class Muted(Case):
    """A case whose own oracle is not listened to."""

    def __init__(self, c, prop, group, idx):
        super().__init__(c.out, prop, group, idx, c.seed, c.tier, c.scratch)
        self.host = c

    def params(self, **kw):
        self.desc = kw
        self.host.params(workload='%s/%s/%d' % (self.prop, self.group,
                                                self.idx), **kw)

    def _emit(self, **rec):
        pass

    def fail(self, key, msg, **detail):
        self.host.count('own verdicts of the workloads not listened to')


def groups(prop):
    mod = importlib.import_module('checks.' + prop)
    return {g.name: g for g in mod.GROUPS}


def run(c, prop, group, idx=None, func=None):
    """Run a case of another check; returns the exception it ended in."""
    idx = c.idx if idx is None else idx
    m = Muted(c, prop, group, idx)
    c.params(workload='%s/%s/%d' % (prop, group, idx))
    try:
        (func or groups(prop)[group].func)(m)
    except Exception as e:
        c.count('workloads ended by an exception')
        return e
    c.count('workloads completed')
    return None
