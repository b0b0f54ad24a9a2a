"""Division of tasks, log records and progress reports."""
import contextlib
import ctypes
import io
import logging
import os
import re
import shutil
import subprocess
import tempfile
import warnings

import numpy as np

from verifkit import est, prog, req, trv
from verifkit.auto import Auto
from verifkit.worker import Group

RULE = ('Task divisions are enumerated on a grid of sizes and generated '
        'beyond it; log records, warnings and progress bars are made '
        'directly and by random measurements of the package and the program '
        'at all verbosities, and parsed back from the recorded output; '
        'distinct by their parameters.')
ASSUMPTIONS = ['log texts up to 4095 bytes, as the program formats them in '
               'a buffer of that size']

STAMP = (r'\[\d{4}-\d{2}-\d{2} \d{2}:\d{2}:\d{2} '
         r'\(\+(\d{2,}):([0-5]\d):([0-5]\d)\)(?: (\w{4,5}))?(?: C\+\+)?\] ')
LINE = re.compile('^' + STAMP + '(.*)$', re.S)
ANSI = re.compile(r'\x1b\[[0-9;]*m')
LEVELS = dict(DBUG=10, STAT=20, INFO=30, WARN=40, ERRO=50)


def prepare(build):
    return {'VERIF_EXE': build.exe(), 'VERIF_MON': build.harness('monitor')}


# -- division ------------------------------------------------------------
def divided(c, total, procs, t=None, p=None):
    from triumvirate._mpitools import allocate_tasks, distribute_tasks
    t = total if t is None else t
    p = procs if p is None else p
    n = allocate_tasks(t, p)
    key = 'division'
    c.check(len(n) == procs and sum(n) == total and min(n) >= 0
            and max(n) - min(n) <= 1, key,
            '%d tasks for %d processes divided as %s' % (total, procs, n))
    for s in (distribute_tasks(task_total=t, proc_total=p),
              distribute_tasks(ntasks=n),
              distribute_tasks(ntasks=n, task_total=3, proc_total=2)):
        got = [list(range(total))[q] for q in s]
        c.check([len(q) for q in got] == list(n)
                and sum(got, []) == list(range(total)), key,
                'segments %s of %d tasks for %d processes'
                % (s, total, procs))
    c.count('divisions')


def division(c):
    """Every number of processes for one number of tasks."""
    total = c.idx + 1
    c.params(tasks=total)
    for procs in range(1, 41):
        divided(c, total, procs)


def division_any(c):
    from triumvirate._mpitools import allocate_tasks, distribute_tasks
    rng = c.rng
    total = int(10**rng.uniform(0, 5))
    procs = int(10**rng.uniform(0, 2.5))
    c.params(tasks=total, processes=procs)
    divided(c, total, procs, t=np.int64(total))
    for t, p, e in [(0, procs, ValueError), (total, 0, ValueError),
                    (-total, procs, ValueError), (total, -procs, ValueError),
                    (total + .5, procs, TypeError),
                    (total, float(procs), TypeError),
                    (str(total), procs, TypeError),
                    (None, procs, TypeError)]:
        c.raises(lambda: allocate_tasks(t, p), e, 'division/reject',
                 '%r tasks for %r processes' % (t, p))
        c.raises(lambda: distribute_tasks(task_total=t, proc_total=p), e,
                 'division/reject', '%r tasks for %r processes' % (t, p))


def given(c):
    """Segments of any given numbers of tasks."""
    from triumvirate._mpitools import distribute_tasks
    n = [int(v) for v in c.rng.integers(0, 9, int(c.rng.integers(1, 12)))]
    c.params(given=n)
    s = distribute_tasks(ntasks=n)
    items = list(range(sum(n)))
    got = [items[q] for q in s]
    c.check([len(q) for q in got] == n and sum(got, []) == items,
            'division', 'segments %s for %s' % (s, n))


# -- captured warnings ---------------------------------------------------
class Rank:
    def __init__(self, rank):
        self.rank = rank


def captured(c):
    from triumvirate._mpitools import restore_warnings
    rng = c.rng
    pool = [('text %d {%d}' % (i, i), [UserWarning, RuntimeWarning][i % 2],
             'file%d.py' % (i % 3), int(i)) for i in range(5)]
    t = pool[0]     # others differing in one respect only
    pool += [t[:3] + (9,), t[:2] + ('other.py',) + t[3:],
             (t[0], RuntimeWarning) + t[2:], ('other',) + t[1:]]
    picks = [pool[i] for i in rng.integers(0, 9, int(rng.integers(0, 16)))]
    recs = [warnings.WarningMessage(cat(m), cat, f, ln)
            for m, cat, f, ln in picks]
    unique, show = bool(rng.integers(2)), bool(rng.integers(2))
    rank = [None, 0, 1, 2][rng.integers(4)]
    root = int(rng.integers(2))
    c.params(records=[p[0] for p in picks], unique=unique, show=show,
             rank=rank, root=root)
    shown = []
    old = warnings.showwarning
    warnings.showwarning = lambda m, cat, f, ln, file=None, line=None: \
        shown.append((str(m), cat, f, ln))
    try:
        got = restore_warnings(recs, unique=unique, show=show,
                               comm=None if rank is None else Rank(rank),
                               comm_root=root)
    finally:
        warnings.showwarning = old
    want = list(dict.fromkeys(picks)) if unique else picks
    c.check([(str(w.message), w.category, w.filename, w.lineno)
             for w in got] == want, 'warnings', 'restored %s of %s'
            % ([str(w.message) for w in got], picks))
    vis = want if show and (rank is None or rank == root) else []
    c.check(shown == vis, 'warnings', 'shown %s instead of %s' % (shown, vis))
    c.count('warnings', len(picks))


# -- records of the package ----------------------------------------------
TEXTS = ['plain', '100% of %s {x}', 'a\tb', 'ünïcode ∑', '', '%d %d', '{',
         'x'*3000, '[brackets] (+00:00:00)', "quoted 'text' \"q\""]


@contextlib.contextmanager
def python_logging(out, **env):
    """A fresh state of logging, restored afterwards."""
    import sys
    root = logging.getLogger()
    old = (list(root.handlers), root.level, warnings.formatwarning,
           warnings.showwarning, sys.stdout, dict(os.environ))
    root.handlers = []
    sys.stdout = out
    os.environ.update(env)
    with warnings.catch_warnings():
        warnings.simplefilter('always')
        try:
            yield
        finally:
            logging.captureWarnings(False)
            root.handlers, root.level = old[0], old[1]
            warnings.formatwarning = old[2]
            sys.stdout = old[4]
            os.environ.clear()
            os.environ.update(old[5])
    warnings.showwarning = old[3]
    logging.getLogger('py.warnings').handlers = []


def records(c):
    from triumvirate import logger as L
    rng = c.rng
    level = int(rng.choice([0, 10, 15, 20, 25, 30, 40, 50]))
    out = io.StringIO()
    env = {}
    if rng.random() < .3:
        env = dict(TERM='xterm-256color', TRV_INTERACTIVE='true')
    plan = []
    for _ in range(int(rng.integers(3, 12))):
        lv = [('debug', 10), ('stat', 15), ('info', 20), ('warning', 30),
              ('error', 40), ('critical', 50), ('caught', 30),
              ('aged', 20)][rng.integers(8)]
        plan.append(lv + (TEXTS[rng.integers(len(TEXTS))],
                          [None, True, False, 'start', 'end', 'START'][
                              rng.integers(6)],
                          float(10**rng.uniform(-3, 6))))
    c.params(level=level, colour=bool(env),
             plan=[(p[0], p[2][:10], p[3]) for p in plan])
    times = int(rng.integers(1, 4))
    with python_logging(out, **env):
        for _ in range(times):      # set up repeatedly: no line doubles
            lg = L.setup_logger(level)
        want = []
        for name, num, text, state, age in plan:
            kw = {} if state is None else dict(cpp_state=state)
            n0 = out.tell()
            if name == 'caught':
                warnings.warn(text, RuntimeWarning)
            elif name == 'aged':
                rec = logging.LogRecord('root', 20, 'f', 1, '%s', (text,),
                                        None)
                fmt = logging.getLogger().handlers[0].formatter
                since = hasattr(fmt, '_start_time')
                rec.created = age + (fmt._start_time if since
                                     else rec.created)
                logging.getLogger().handle(rec) if num >= level else None
            elif rng.random() < .5:
                getattr(lg, name)('%s', text, **kw)
            else:
                getattr(lg, name)(text.replace('%', '%%') + '%s', '', **kw)
            out.seek(n0)
            line = out.read()
            want.append((name, num, text, state, age, line))
    for name, num, text, state, age, line in want:
        line = ANSI.sub('', line)
        if num < level:
            c.check(line == '', 'records', '%s at level %d printed %r'
                    % (name, level, line[:80]))
            continue
        m = LINE.match(line)
        if not c.check(m is not None and line.endswith('\n'), 'records',
                       '%s at level %d: %r' % (name, level, line[:120])):
            continue
        tag = {'debug': 'DBUG', 'stat': 'STAT', 'info': 'INFO', 'aged':
               'INFO', 'warning': 'WARN', 'caught': 'WARN', 'error': 'ERRO',
               'critical': 'FATAL'}[name]
        suf = {None: '', True: ' (in C++)', False: '',
               'start': ' (entering C++)', 'START': ' (entering C++)',
               'end': ' (exited C++)'}[state]
        body = m.group(5)
        if name == 'caught':
            c.check(body.startswith(text + ' (') and 'C24.py:' in body
                    and 'RuntimeWarning' in body, 'records',
                    'warning %r as %r' % (text[:40], body[-200:]))
        else:
            if name == 'aged':
                suf = ''
                h, mi, s = (int(v) for v in m.groups()[:3])
                off = h*3600 + mi*60 + s - int(age)
                c.check(abs(off) <= (abs(age - round(age)) < 1e-4) if since
                        else 0 <= off < 3600, 'elapsed',
                    '%s for %.4f s' % (m.group(0)[:40], age))
            c.check(body == text + suf + '\n', 'records',
                    '%s %r printed as %r' % (name, text[:40], body[:120]))
        c.check(m.group(4) == tag, 'records', '%s marked %s'
                % (name, m.group(4)))
        c.count('records')


# -- the library's own tools ---------------------------------------------
def hexed(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


class Tool:
    def __init__(self, **env):
        self.p = subprocess.Popen(
            [os.environ['VERIF_MON']], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, env=dict(os.environ, **env))

    def ask(self, *f):
        self.p.stdin.write(('\t'.join(str(x) for x in f) + '\n').encode())
        self.p.stdin.flush()
        out = b''
        while not out.endswith(b'\x1e'):
            ch = self.p.stdout.read1(65536)
            if not ch:
                raise RuntimeError('the tool ended: %r' % out[-200:])
            out += ch
        return out[:-1]

    def strs(self, *f):
        return [bytes.fromhex(h).decode() for h in re.findall(
            '<([0-9a-f]*)>', self.ask(*f).decode())]

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def rand_str(rng, chars='ab,;/. {}$', n=8):
    return ''.join(chars[i] for i in rng.integers(0, len(chars),
                                                  int(rng.integers(0, n))))


def strings(c):
    rng = c.rng
    t = Tool(VERIF_A='value', VERIF_EMPTY='', VERIF_B='/p/${VERIF_A}')
    key = 'strings'
    s = rand_str(rng)
    d = [',', '::', ';', 'ab', '', '/'][rng.integers(6)]
    v = [rand_str(rng) for _ in range(int(rng.integers(0, 5)))]
    secs = float(10**rng.uniform(-2, 6.5))
    c.params(text=s, delimiter=d, parts=v, seconds=secs)
    j = t.strs('join', hexed(d), *[hexed(q) for q in v])
    c.check(j == [d.join(v)], key, 'join of %s with %r: %s' % (v, d, j))
    got = t.strs('split', hexed(s), hexed(d))
    want = [s] if s and not d else s.split(d) if s else []
    if want and d and want[-1] == '':
        want = want[:-1]
    c.check(got == want, key, 'split of %r at %r: %s' % (s, d, got))
    for e in ('.a', '', 'b', s, s + 'x', '.txt'):
        c.check(t.ask('has', hexed(s), hexed(e)) == b'%d' % s.endswith(e),
                key, '%r has extension %r' % (s, e))
    got = t.ask('elapsed', repr(secs)).decode()
    i = int(secs)
    c.check(got == '%02d:%02d:%02d' % (i//3600, i % 3600//60, i % 60),
            'elapsed', '%.3f s shown as %s' % (secs, got))
    parts = ['${VERIF_A}', '${VERIF_EMPTY}', '${VERIF_NONE}', '/', 'x', '$',
             '{', '}', '${}', '${VERIF_A', ' ', '.d']
    p = [parts[i] for i in rng.integers(0, len(parts),
                                        int(rng.integers(0, 7)))]
    text = ''.join(p)
    want = re.sub(r'\$\{([^}]+)\}', lambda m: dict(
        VERIF_A='value', VERIF_EMPTY='').get(m.group(1), m.group(0)), text)
    got = t.strs('expand', hexed(text))
    c.check(got == [want], 'paths', '%r expanded to %s, not %r'
            % (text, got, want))
    t.close()
    c.count('strings', 10)


def native(c):
    """Log records of the library at every level."""
    rng = c.rng
    colour = rng.random() < .4
    t = Tool(TERM='xterm-color' if colour else 'dumb',
             TRV_INTERACTIVE='true')
    limit = int(rng.choice([0, 5, 10, 15, 20, 30, 40, 50, 60, 99]))
    t.ask('level', limit)
    plan = []
    for _ in range(12):
        text = TEXTS[rng.integers(len(TEXTS))]
        if rng.random() < .3:
            lv = int(rng.integers(0, 60))
            plan.append(('log', lv, text))
        else:
            plan.append((['debug', 'stat', 'info', 'warn', 'error'][
                rng.integers(5)], None, text))
    c.params(limit=limit, colour=colour, plan=[p[:2] for p in plan])
    for op, lv, text in plan:
        if op == 'log':
            got, num = t.ask('log', lv, hexed(text)), lv
            tag = {v: k for k, v in LEVELS.items()}.get(lv//10*10)
        else:
            got = t.ask(op, hexed(text))
            num = dict(debug=10, stat=20, info=30, warn=40, error=50)[op]
            tag = {v: k for k, v in LEVELS.items()}[num]
        got = got.decode()
        if num < limit:
            c.check(got == '', 'native', '%s at limit %d printed %r'
                    % (op, limit, got[:80]))
            continue
        c.check((ANSI.search(got) is not None) == (colour and tag
                                                   is not None),
                'native', 'colours in %r' % got[:80])
        m = LINE.match(ANSI.sub('', got))
        c.check(m is not None and m.group(4) == tag
                and m.group(5) == text + '\n', 'native',
                '%s %r at limit %d printed %r' % (op, text[:30], limit,
                                                  got[:160]))
    for i in range(4):
        text = TEXTS[rng.integers(len(TEXTS))]
        c.check(t.strs('error-text', i, hexed(text)) == [text], 'errors',
                'text of error %d from %r' % (i, text[:40]))
    t.close()
    c.count('records', 12)


def nodes_of(text):
    """The percentages a progress interval asks for."""
    v = float(text)/100.
    return [i*v for i in range(1, int(1/v) + 2) if i*v < 1 - 1e-6] + [1.]


def parse_bars(text):
    """Progress lines: list of bars, each a list of percentages."""
    bars, cur = [], []
    for chunk in ANSI.sub('', text).split('\r'):
        m = re.search(STAMP + r'\[([=> ]*)\] (\d+)%(?: < (.*))?$', chunk,
                      re.S)
        if chunk.startswith('\n') and cur:
            bars.append((cur, True))
            cur = []
        if m:
            cur.append((int(m.group(6)), m.group(5), m.group(7)))
    if cur:
        bars.append((cur, False))
    return bars


def bar(c):
    rng = c.rng
    t = Tool(TERM='dumb')
    count = int(rng.choice([1, 2, 3, 7, 10, 33, 100, 1000]))
    width = int(rng.choice([0, 1, 10, 77]))
    node = ['', '10', '25', '7.5', '33.3', '50', '99'][rng.integers(7)]
    name = ['', 'orders (0, -1, 1)', 'x'][rng.integers(3)]
    if rng.random() < .5:
        idx = list(range(count + 1))
    else:
        idx = sorted({int(v) for v in rng.integers(0, count + 1, 9)}
                     | {count})
    c.params(count=count, width=width, nodes=node, name=name, num=len(idx))
    out = t.ask('bar', hexed(name), count, width, hexed(node), *idx)
    key = 'bar'
    steps = out.decode().split('\x1f')
    c.check(len(steps) == len(idx) + 1, key, 'stopped: %r' % out[-200:])
    ask = nodes_of(node) if node else [i/100. for i in range(101)]
    left = list(ask)
    for i, s in zip(idx, steps):
        p = i/count
        near = any(abs(p - q) < 1e-5 and p != q for q in left)
        due = [q for q in left if q <= p + 1e-12]
        got = re.search(r'\[([=> ]*)\] (\d+)%(?: < (.*))?\r(\n?)$', s,
                        re.S)
        if near and not due:
            left = [q for q in left if q > p + 1e-5]
            continue
        left = [q for q in left if q > p + 1e-12]
        if not c.check((got is not None) == bool(due), key,
                       'at %d of %d: %r' % (i, count, s)):
            break
        if not due:
            continue
        w = len(got.group(1))
        c.check(abs(int(got.group(2)) - int(p*100 + 1e-9)) <= (
            abs(p*100 - round(p*100)) < 1e-3)
            and (width == 0 or w == width)
            and abs(got.group(1).count('=') - int(p*w + 1e-9)) <= (
                abs(p*w - round(p*w)) < 1e-3)
            and (got.group(3) or '') == name
            and (got.group(4) == '\n') == (i == count), key,
            'at %d of %d: %r' % (i, count, s))
    more = t.ask('bar', hexed(name), count, width, hexed(node), count + 1)
    c.check(b'REJECTED' in more, key, 'progress beyond the end accepted')
    for bad in ('0', '-3', '100', 'ten', '', '5x', 'nan'):
        if bad:
            c.check(b'REJECTED' in t.ask('nodes', hexed(bad)), key,
                    'interval %r accepted' % bad)
    for cnt in (0, -2):
        c.check(b'REJECTED' in t.ask('bar', '', cnt, 0, '', 0), key,
                'a bar of %d tasks accepted' % cnt)
    t.close()
    c.count('bars')


# -- measurements --------------------------------------------------------
libc = ctypes.CDLL(None)


def shown(path):
    with open(path, errors='replace', newline='') as fh:
        return fh.read()


@contextlib.contextmanager
def stdout_to(path):
    libc.fflush(None)
    old = os.dup(1)
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.close(fd)
    try:
        yield
    finally:
        libc.fflush(None)
        os.dup2(old, 1)
        os.close(old)


def entries(text):
    """(level, text) of every native log record, timestamps monotone."""
    out, last, ok = [], -1, True
    for ln in ANSI.sub('', text).replace('\r', '\n').split('\n'):
        m = LINE.match(ln)
        if m is None:
            continue
        if re.match(r'\[[=> ]+\] \d+%', m.group(5)):
            continue
        t = int(m.group(1))*3600 + int(m.group(2))*60 + int(m.group(3))
        ok &= t >= last
        last = t
        if 'verbose' in m.group(5) or 'progbar' in m.group(5):
            continue
        out.append((LEVELS.get(m.group(4), 0), m.group(5)))
    return out, ok


def verbosity(c, kind):
    """What is shown at one verbosity is what remains of all records."""
    rng = c.rng
    r = req.Req(c, kind)
    limits = [int(v) for v in rng.choice([5, 10, 20, 30, 40, 50, 60], 3,
                                         replace=False)]
    c.params(limits=limits, **r.describe())
    key = '%s-%s' % kind
    got, logs = [], []
    for v in [0] + limits:
        for i in range(2):       # the level is set by the first
            p = os.path.join(c.scratch, 'log')
            with stdout_to(p):
                res = r.run(over=dict(verbose=v))
        got.append(res)
        logs.append(entries(shown(p))[0])
    c.check(len(logs[0]) > 3, 'log/' + key, 'nothing logged: %s' % logs[0])
    for v, a, b in zip(limits, logs[1:], got[1:]):
        want = [e for e in logs[0] if e[0] >= v]
        c.check(a == want, 'log/' + key, 'at verbosity %d: %d records, '
                'expected %d; first difference %s' % (
                    v, len(a), len(want),
                    [q for q in zip(a + [None], want + [None])
                     if q[0] != q[1]][:1]))
        req.same(c, r, b, got[0], 'result/' + key, 1e-9, 1e-11,
                 'verbosity %d' % v)
        c.count('records compared', len(want))
    if c.idx % 2 == 0:
        adapter(c, r, got[0], key)


def adapter(c, r, want, key):
    """With a logger, every record is whole and results are the same."""
    from triumvirate import logger as L
    out = io.StringIO()
    with python_logging(out):
        lg = L.setup_logger(0)
        got = r.run(logger=lg, over=dict(verbose=0))
    lines = out.getvalue().splitlines()
    marks = [ln for ln in lines if '(entering C++)' in ln], \
        [ln for ln in lines if '(exited C++)' in ln]
    c.check(len(lines) > 2 and all(LINE.match(ln) for ln in lines),
            'log/' + key, 'records of the package: %s' % lines[:3])
    c.check(len(marks[0]) == len(marks[1]) > 0, 'log/' + key,
            'C++ entered %d times, left %d times' % (len(marks[0]),
                                                     len(marks[1])))
    req.same(c, r, got, want, 'result/' + key, 1e-9, 1e-11, 'with logger')
    c.count('records', len(lines))


def check_bars(c, text, key, interval):
    bars = parse_bars(text)
    c.check(len(bars) > 0, key, 'no progress shown')
    for cur, ended in bars:
        pct = [p[0] for p in cur]
        c.check(ended and pct[-1] == 100, key,
                'a progress bar ends at %s%%' % pct[-1:])
        c.check(all(a <= b for a, b in zip(pct, pct[1:])), key,
                'progress goes back: %s' % pct)
        names = {p[2] for p in cur}
        c.check(len(names) == 1, key, 'mixed bars: %s' % names)
        if interval:
            c.check(len(pct) <= len(nodes_of(interval)), key,
                    '%d reports for an interval of %s%%'
                    % (len(pct), interval))
    names = [cur[0][2] for cur, _ in bars]
    c.check(len(set(names)) == len(names), key, 'repeated bars: %s' % names)
    c.count('progress bars', len(bars))
    c.count('progress reports', sum(len(b[0]) for b in bars))
    return names


def progress(c, kind):
    """Progress is reported to completion, whatever is measured."""
    rng = c.rng
    r = req.Req(c, kind)
    opt = [True, 'on', 10, 37.5, '20'][rng.integers(5)]
    verbose = int(rng.choice([20, 60]))
    c.params(progbar=opt, verbose=verbose, **r.describe())
    key = '%s-%s' % kind
    p = os.path.join(c.scratch, 'log')
    with stdout_to(p):
        want = r.run(over=dict(progbar=False, verbose=verbose))
    text = shown(p)
    c.check(not parse_bars(text), 'progress/' + key,
            'progress shown though not asked for')
    with stdout_to(p):
        got = r.run(over=dict(progbar=opt, verbose=verbose))
    text = shown(p)
    if r.npt == 3:
        check_bars(c, text, 'progress/' + key,
                   None if opt in (True, 'on') else str(opt))
    req.same(c, r, got, want, 'result/' + key, 1e-9, 1e-11, 'with progress')
    if c.idx % 3 == 0:
        program(c, r, want, key, opt)


def program(c, r, want, key, opt):
    """The same from the program, at two verbosities."""
    d = tempfile.mkdtemp(dir=c.scratch)
    full, names = [], ['x', 'y', 'z', 'nz', 'ws', 'wc']
    for i, q in enumerate(r.cols):
        q = dict(q)
        one = np.ones(len(q['x']))
        for k, v in (('nz', one*(1e-4 if r.nz is None else r.nz)),
                     ('ws', one), ('wc', one)):
            q.setdefault(k, v)
        prog.write_catalogue(os.path.join(d, 'c%d' % i), q, names)
        full.append('c%d' % i)
    files = dict(data=full[0], rand=full[1]) if r.cat == 'survey' else \
        dict(rand=full[0]) if r.cat == 'random' else dict(data=full[0])
    logs = []
    opt = {True: 'true'}.get(opt, opt)
    v = int(c.rng.choice([10, 20, 30, 40, 50, 60]))
    for verbose, pb in ((0, 'false'), (v, opt)):
        prog.write_ini(os.path.join(d, 'p.ini'), prog.settings(
            r, columns=','.join(names), verbose=verbose, progbar=pb,
            **files))
        # A thread keeps sums, and the numbers logged, in one order.
        res = prog.run(os.environ['VERIF_EXE'], d, OMP_NUM_THREADS=1)
        if not c.check(res.code == 0, 'exit/' + key, 'program exits with %d:'
                       ' %s' % (res.code, res.text[-300:])):
            return
        e, ok = entries(res.text)
        c.check(ok, 'clock/' + key, 'elapsed times go back')
        logs.append(e)
        if pb != 'false' and r.npt == 3:
            check_bars(c, res.text, 'progress/' + key,
                       None if pb in ('true', 'on') else str(pb))
    i = [n for n, q in enumerate(logs[0]) if q[1].endswith(
        '... read parameters.')]
    if not c.check(len(i) == 1 and len(logs[0]) > i[0] + 5, 'log/' + key,
                   'no record of the parameters read'):
        return
    # Until parameters are read any verbosity may be in force.
    early, want = logs[0][:i[0] + 1], [
        e for e in logs[0][i[0] + 1:] if e[0] >= v]
    m = len(logs[1]) - len(want)
    rest = iter(early)
    c.check(m >= 0 and logs[1][m:] == want
            and all(e in rest for e in logs[1][:m]), 'log/' + key,
            'program at verbosity %d: %d records, expected %d besides those '
            'of its parameters; %s' % (
                v, len(logs[1]), len(want),
                [q for q in zip(logs[1][max(m, 0):] + [None], want + [None])
                 if q[0] != q[1]][:1]))
    c.count('program runs', 2)


class Collector(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got, self.bad = [], []

    def emit(self, rec):
        try:
            self.got.append((rec.levelname, rec.getMessage()))
        except Exception as e:
            self.bad.append('%r: %s' % (rec.msg, e))


def loggers(c, kind):
    """Catalogues, parameters and measurements given a logger of any kind:
    results as without it, and every number logged is true."""
    from triumvirate import logger as L
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.parameters import ParameterSet
    rng = c.rng
    key = '%s-%s' % kind
    a = Auto(c, kind)
    r = a.r
    which = ['setup', 'plain', 'adapter'][rng.integers(3)]
    route = ['object', 'dict', 'arguments'][rng.integers(3)]
    files = bool(rng.random() < .4)
    save = [False, '.txt', '.npz'][rng.integers(3)]
    a.describe(c, logger=which, route=route, files=files, save=save)
    d = tempfile.mkdtemp(dir=c.scratch)
    if route == 'arguments':
        save = False
        kw, way = {}, ''
        while way != 'args':
            kw, way = est.api_kwargs(
                rng, r.box, r.n, r.stat, r.cat, r.bs, r.edges, r.deg,
                r.scheme, r.il, 'particle', r.align, r.form, r.idx, r.npt)
    cols = [dict(q) for q in r.cols]
    names = ['x', 'y', 'z', 'nz', 'ws', 'wc']
    if files:
        for i, q in enumerate(cols):
            one = np.ones(len(q['x']))
            for k, v in (('nz', one*1e-4), ('ws', one), ('wc', one)):
                q.setdefault(k, v)
            prog.write_catalogue(os.path.join(d, 'c%d' % i), q, names)

    def do(lg):
        if files:
            cats = [ParticleCatalogue.read_from_file(
                os.path.join(d, 'c%d' % i), names=names, logger=lg)
                for i in range(len(cols))]
        else:
            cats = [trv.make(q, logger=lg) for q in cols]
        first = [(len(q['x']), float(np.sum(q['ws']*q['wc'])),
                  float(np.sum(q['ws'])), [np.array(q[ax]) for ax in 'xyz'])
                 for q in cats]
        if route == 'arguments':
            more = dict(kw)
            if r.wa is not None:
                more['wa_orders'] = r.wa
            return cats, None, r.fn(*cats, logger=lg, **more), first
        ps = dict(r.paramset(directories=dict(
            catalogues=None, measurements=d), **a.over()).items())
        ps = ParameterSet(param_dict=ps, logger=lg) if route == 'object' \
            else ps
        return cats, ps, r.run(cats, ps, save=save, logger=lg), first

    _, _, want, _ = do(None)
    for f in os.listdir(d):
        if not re.match(r'c\d$', f):
            os.unlink(os.path.join(d, f))
    box, out = Collector(), io.StringIO()
    with python_logging(out):
        if which == 'plain':
            lg = logging.Logger('verif', 0)
            lg.addHandler(box)
        else:
            lg = L.setup_logger(0)
            logging.getLogger().addHandler(box)
            if which == 'adapter' and not hasattr(lg, 'extra'):
                which = 'setup'
            if which == 'adapter':
                lg = type(lg)(logging.getLogger('verif.sub'), lg.extra)
        cats, ps, got, first = do(lg)
    c.check(not box.bad, 'log/' + key, 'records not whole: %s' % box.bad[:2])
    msgs = [re.sub(r' \(\w+ C\+\+\)$', '', m) for _, m in box.got]
    c.check(len(msgs) > 3, 'log/' + key, 'logged only %s' % msgs)
    req.same(c, r, got, want, 'result/' + key, 1e-9, 1e-11,
             'with a logger (%s)' % which)
    c.count('records', len(msgs))
    num = r'(-?[\d.]+(?:e[-+]\d+)?)'

    def near(v, w, what, tol):
        c.check(len(v) == len(w) and np.allclose(v, w, rtol=tol, atol=6e-4),
                'numbers/' + key, '%s logged as %s instead of %s'
                % (what, v, w))
        c.count('logged numbers', len(v))

    held, ends, n = [], {}, 0
    for m in msgs:
        v = re.search(r'ntotal = %s, wtotal = %s, wstotal = %s \((.*)\)'
                      % (num, num, num), m)
        if v:
            near([float(x) for x in v.groups()[:3]], first[len(held)][:3],
                 'totals', 1e-12)
            held.append(v.group(4))
        v = re.match(r"(Original|Offset) extents of particle coordinates: "
                     r"\{(.*)\} \((.*)\)", m)
        if v:
            x = [float(q) for q in re.findall(num, v.group(2))]
            if v.group(1) == 'Original':
                p = first[n][3]
                w = sum(([q.min(), q.max(), np.ptp(q)] for q in p), [])
                near(x, w, 'original extents', 1e-12)
                n += 1
            ends.setdefault(v.group(3), []).append(x)
        v = re.match('Alpha contrast: %s' % num, m)
        if v:
            near([float(v.group(1))*1e4], [first[0][2]/first[1][2]*1e4],
                 'alpha', 6e-7)
        v = re.match(r'Measurements saved to (.*)\.$', m)
        if v:
            fs = [f for f in os.listdir(d) if not re.match(r'c\d$', f)]
            c.check([os.path.join(d, f) for f in fs] == [v.group(1)],
                    'log/' + key, 'saved to %s, but found %s'
                    % (v.group(1), fs))
            c.count('saved')
        v = re.match(r'Box size determined.*: \(%s, %s, %s\)'
                     % (num, num, num), m)
        if v:
            near([float(q) for q in v.groups()], r.box, 'box', 1e-3)
        v = re.match(r'Mesh number determined.*: \(%s, %s, %s\)'
                     % (num, num, num), m)
        if v:
            c.check(all(int(q) in s for q, s in zip(v.groups(), a.ns)),
                    'numbers/' + key, 'mesh logged as %s instead of %s'
                    % (v.groups(), a.ns))
    if len(set(held)) == len(held):
        for q, name in zip(cats, held):
            w = sum(([p.min(), p.max(), np.ptp(p)] for p in (
                np.array(q[ax]) for ax in 'xyz')), [])
            if name in ends:
                near(ends[name][-1], w, 'final extents', 1e-9)
    shutil.rmtree(d)


def one(f, kind):
    return lambda c: f(c, kind)


GROUPS = [Group('division', division, 60, 400),
          Group('division-any', division_any, 40, 400),
          Group('given', given, 40, 400),
          Group('captured', captured, 100, 1000),
          Group('records', records, 100, 1000),
          Group('strings', strings, 60, 800),
          Group('native', native, 40, 500),
          Group('bar', bar, 60, 600)] + [
    Group('verbosity-%s-%s' % k, one(verbosity, k), 6, 60)
    for k in req.KINDS] + [
    Group('progress-%s-%s' % k, one(progress, k), 12 if '3' in k[0]
          or k[0] == 'bispec' else 3, 120) for k in req.KINDS] + [
    Group('loggers-%s-%s' % k, one(loggers, k), 8, 80) for k in req.KINDS]
