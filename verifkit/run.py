"""Runs one property's check and decides its verdict.

A check is a module ``checks/<id>.py`` with:

- ``GROUPS``: list of ``Group`` (name, case function, cases per tier);
- optionally ``prepare(build)`` returning the environment of the workers
  (default: the Python package built from /repo's working tree);
- ``RULE``: how cases are made and what makes one non-trivial.

Cases are run in worker processes.  Each case is deterministic in
(property, group, seed, index), journalled before it starts, so that a
process that dies in a case is attributed to that case.  Verdict: violated
(exit 1), held on what was observed (0), inconclusive or broken check (2).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')
WORKERS = 4


def known_findings(prop):
    """Recorded (unfixed) findings: key -> description."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == 'finding:' \
                    and parts[1] == 'property=' + prop:
                out[parts[2].split('=', 1)[1]] = parts[3]
    return out


class WorkerState:
    def __init__(self, proc, jpath):
        self.proc, self.jpath = proc, jpath


def run_worker(prop, env, tasks, seed, tier, workdir, wid, deadline,
               case_timeout, results, errors, lock):
    """Feed `tasks` to worker processes; restart after a dead worker."""
    todo = list(tasks)
    attempt = 0
    while todo:
        attempt += 1
        base = os.path.join(workdir, 'w%d-%d' % (wid, attempt))
        tpath, jpath, opath = base + '.tasks', base + '.jnl', base + '.log'
        with open(tpath, 'w') as fh:
            json.dump({'prop': prop, 'seed': seed, 'tier': tier,
                       'deadline': deadline, 'tasks': todo,
                       'scratch': base + '.d'}, fh)
        os.makedirs(base + '.d', exist_ok=True)
        open(jpath, 'w').close()
        with open(opath, 'wb') as log:
            p = subprocess.Popen(
                [B.PY, '-X', 'faulthandler', '-m', 'verifkit.worker', tpath,
                 jpath], cwd=base + '.d', env=env, stdout=log,
                stderr=subprocess.STDOUT, start_new_session=True)
        last, last_t, hung = -1, time.time(), False
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            sz = os.path.getsize(jpath)
            if sz != last:
                last, last_t = sz, time.time()
            elif time.time() - last_t > case_timeout:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        recs = []
        for line in open(jpath, errors='replace'):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
        done, begun = [], None
        for r in recs:
            if r['ev'] == 'begin':
                begun = r
            elif r['ev'] == 'end':
                done.append((r['group'], r['idx']))
                begun = None
        with lock:
            results.extend(r for r in recs if r['ev'] not in ('begin',))
        stopped = any(r['ev'] == 'stop' for r in recs)
        if p.returncode == 0 and stopped:
            return
        with open(opath, 'rb') as fh:
            tail = fh.read()[-6000:].decode(errors='replace')
        if begun is None:
            with lock:
                errors.append('worker died outside a case (rc=%s)\n%s'
                              % (p.returncode, tail))
            return
        g, i = begun['group'], begun['idx']
        if hung:
            with lock:
                errors.append('case %s/%s did not end in %ss'
                              % (g, i, case_timeout))
        else:
            with lock:
                results.append({
                    'ev': 'violation', 'group': g, 'idx': i,
                    'key': 'crash:' + g,
                    'msg': 'the process died (rc=%s) in this case'
                           % p.returncode,
                    'detail': {'params': begun.get('params'), 'log': tail}})
                results.append({'ev': 'end', 'group': g, 'idx': i, 'n': 1,
                                'sig': None})
        skip = set(done) | {(g, i)}
        todo = [t for t in todo if (t[0], t[1]) not in skip]
        if attempt > 12:
            with lock:
                errors.append('too many worker restarts')
            return


def shares(tasks, groups, nw):
    """Share tasks out among workers, by the environment they need."""
    kinds = {}
    for t in tasks:
        e = groups[t[0]].env
        kinds.setdefault(json.dumps(e, sort_keys=True), (e, []))[1].append(t)
    for env, part in kinds.values():
        n = max(1, min(len(part), round(nw*len(part)/len(tasks))))
        for w in range(n):
            yield env, part[w::n]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--group')
    ap.add_argument('--workers', type=int, default=WORKERS)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    prop = a.prop
    os.environ['VERIF_SEED'], os.environ['VERIF_TIER'] = str(a.seed), a.tier
    mod = importlib.import_module('checks.' + prop)
    workdir = tempfile.mkdtemp(prefix='trv-%s-' % prop)
    rc = 2
    try:
        rc = _run(a, prop, mod, workdir, t0)
    except B.BuildError as e:
        print('ERROR build failed: %s' % e)
    finally:
        if not a.keep:
            shutil.rmtree(workdir, ignore_errors=True)
    return rc


def _run(a, prop, mod, workdir, t0):
    bld = B.Build()
    env = mod.prepare(bld) if hasattr(mod, 'prepare') else {}
    env = dict(env)
    if env.pop('_full', None):
        full = env
    else:
        full = B.clean_env(PYTHONPATH=bld.pyext() + ':' + VERIF, **env)
    full['TRV_BUILD_DIR'] = bld.dir
    full['VERIF_SCRATCH'] = workdir
    t_build = time.time() - t0

    groups = {g.name: g for g in mod.GROUPS}
    tasks = []
    if a.replay:
        with open(a.replay) as fh:
            rp = json.load(fh)
        a.seed, a.tier = rp['seed'], rp['tier']
        tasks = [[c['group'], c['idx']] for c in rp['cases']]
    else:
        names = [a.group] if a.group else list(groups)
        counts = {n: groups[n].count(a.tier) for n in names}
        # Interleave the groups so that a time limit trims all alike.
        order = []
        for n in names:
            order += [((i + 0.5) / counts[n], n, i) for i in range(counts[n])]
        order.sort()
        tasks = [[n, i] for _, n, i in order]
    budget = getattr(mod, 'BUDGET', {'quick': 150, 'thorough': 700})[a.tier]
    deadline = time.time() + budget
    case_timeout = getattr(mod, 'CASE_TIMEOUT', 200)
    results, errors, lock, threads = [], [], threading.Lock(), []
    nw = max(1, min(a.workers, getattr(mod, 'WORKERS', WORKERS), len(tasks)))
    for w, (env, part) in enumerate(shares(tasks, groups, nw)):
        th = threading.Thread(target=run_worker, args=(
            prop, dict(full, **env), part, a.seed, a.tier, workdir, w, deadline,
            case_timeout, results, errors, lock))
        th.start()
        threads.append(th)
    for th in threads:
        th.join()

    ends = [r for r in results if r['ev'] == 'end']
    viols = [r for r in results if r['ev'] == 'violation']
    errors += [r['msg'] for r in results if r['ev'] == 'error']
    evals = sum(r.get('n', 0) for r in ends)
    sigs = {json.dumps(s, sort_keys=True) for r in ends
            for s in ([r['sig']] if r.get('sig') is not None else [])}
    counters = {}
    for r in results:
        if r['ev'] == 'counters':
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
    per_group = {}
    for r in ends:
        per_group[r['group']] = per_group.get(r['group'], 0) + 1
    maxdev = {}
    for r in results:
        for k, v in (r.get('maxdev') or {}).items():
            maxdev[k] = max(maxdev.get(k, 0.), v)
    samples, seen = [], set()
    for r in ends:
        if r.get('sample') and r['group'] not in seen:
            seen.add(r['group'])
            samples.append({'group': r['group'], 'idx': r['idx'],
                            'case': r['sample']})
    samples = samples[:12]

    known = known_findings(prop)
    new = [v for v in viols if v['key'] not in known]
    old = {v['key'] for v in viols if v['key'] in known}

    # Inconclusive: groups in which the monitor observed nothing.
    if not a.replay:
        for n in ([a.group] if a.group else groups):
            if not per_group.get(n):
                errors.append('group %s: no case was completed' % n)
        if not evals:
            errors.append('the monitor observed nothing')

    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples or [{'note': 'no sample'}],
            'cases_per_group': per_group, 'events': counters,
            'max_relative_deviation': {k: float('%.3g' % v)
                                       for k, v in maxdev.items()},
            'tree': bld.hash, 'build_s': round(t_build, 1),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(new),
    }
    outdir = os.environ.get('VERIF_OUT', VERIF)   # elsewhere in experiments
    os.makedirs(os.path.join(outdir, 'evidence'), exist_ok=True)
    if not a.replay and not a.group:
        with open(os.path.join(outdir, 'evidence', prop + '.json'),
                  'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    print('%s: %d evaluations in %d cases (%d distinct), %d groups, %.1fs '
          '(build %.1fs)' % (prop, evals, len(ends), len(sigs),
                             len(per_group), time.time() - t0, t_build))
    if a.v:
        print(json.dumps(ev['coverage'], indent=1))
    if new:
        os.makedirs(os.path.join(outdir, 'replay'), exist_ok=True)
        rp = os.path.join(outdir, 'replay', '%s-%s-%d.json'
                          % (prop, a.tier, a.seed))
        cases, seen = [], set()
        for v in new:
            if (v['group'], v['idx']) not in seen:
                seen.add((v['group'], v['idx']))
                cases.append({'group': v['group'], 'idx': v['idx']})
        with open(rp, 'w') as fh:
            json.dump({'property': prop, 'tier': a.tier, 'seed': a.seed,
                       'cases': cases[:20], 'violations': new[:20],
                       'how': './check %s --replay %s' % (prop, rp)},
                      fh, indent=1)
        shown = set()
        for v in new:
            if v['key'] in shown:
                continue
            shown.add(v['key'])
            print('  [%s] case %s/%s: %s' % (v['key'], v['group'], v['idx'],
                                            v['msg']))
            if a.v:
                print('     ', json.dumps(v.get('detail'))[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        for e in errors[:6]:
            print('INCONCLUSIVE', e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
