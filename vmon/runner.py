"""Runs one check: shards its cases over forked workers, merges what they observed, writes the evidence file.

Exit 0 held on everything explored; 1 violation; 2 inconclusive or an error of the machinery.
"""
import argparse
import glob
import importlib
import json
import logging
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
REPO_SRC = os.path.realpath(os.path.join(REPO, 'src')) + os.sep
REAL_TIME = time.monotonic

STEP_BUDGET = 40_000_000


def load_checks():
    for path in sorted(glob.glob(os.path.join(HERE, 'checks', '*.py'))):
        name = os.path.basename(path)[:-3]
        if name != '__init__':
            importlib.import_module('checks.' + name)


# ---------------------------------------------------------------------------- one case
def classify_exception(exc):
    """An exception nobody expected: is it satisfy's or the machinery's?

    Walk from the innermost frame outwards; satisfy's frames and the check's direct calls into satisfy make it
    satisfy's, frames of the reference models (vmon/) make it the machinery's."""
    frames = traceback.extract_tb(exc.__traceback__)
    for frame in reversed(frames):
        path = os.path.realpath(frame.filename)
        if path.startswith(REPO_SRC) or frame.filename == '<string>':
            return 'satisfy'
        if path.startswith(os.path.join(HERE, 'vmon') + os.sep):
            if os.path.basename(path) == 'sut.py':
                return 'satisfy'
            return 'harness'
        if path.startswith(os.path.join(HERE, 'checks') + os.sep):
            return 'satisfy'
    return 'harness'


class Steps:
    """Logical steps of satisfy's own code: branch, jump and call events counted with sys.monitoring."""
    TOOL = 4

    def __init__(self, budget):
        self.budget, self.n = budget, 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vmon')
        events = mon.events.BRANCH | mon.events.JUMP | mon.events.PY_START | mon.events.PY_RESUME

        def tick(code, *_):
            if not code.co_filename.startswith(REPO_SRC) and code.co_filename != '<string>':
                return mon.DISABLE
            self.n += 1
            if self.n > self.budget:
                self.n = 0
                raise core.StepBudget()
        for ev in (mon.events.BRANCH, mon.events.JUMP, mon.events.PY_START, mon.events.PY_RESUME):
            mon.register_callback(self.TOOL, ev, tick)
        mon.set_events(self.TOOL, events)
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)
        return False


def alarm(seconds):
    # repeats, in case the code under test swallows the first one
    signal.setitimer(signal.ITIMER_REAL, seconds, 3 if seconds else 0)


def run_once(check, case, obs, wall):
    """-> (verdict, violation_or_text); verdict in held, skip, violation, hang, error"""
    obs.current_nontrivial = False
    try:
        alarm(wall)
        try:
            check.run(case, obs)
        finally:
            alarm(0)
    except core.Skip:
        return 'skip', None
    except core.Violation as v:
        return 'violation', v
    except core.HarnessError:
        return 'error', traceback.format_exc()
    except core.Watchdog:
        return 'hang', None
    except MemoryError:
        return 'hang', None
    except core.StepBudget:
        raise
    except BaseException as exc:
        if isinstance(exc, KeyboardInterrupt):
            raise
        if classify_exception(exc) == 'satisfy':
            text = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__, limit=-6))
            return 'violation', core.Violation(
                'unexpected {}: {}'.format(type(exc).__name__, str(exc)[:300]),
                key='exception', traceback=text[-3000:])
        return 'error', traceback.format_exc()
    return 'held', None


def run_case(check, case, obs, wall):
    verdict, info = run_once(check, case, obs, wall)
    if verdict != 'hang':
        return verdict, info
    if check.heavy(case):
        obs.count('heavy_cases_given_up')
        return 'skip', None
    # A wall-clock guard is no verdict: decide on logical steps instead.
    obs.count('watchdog_reruns')
    try:
        with Steps(STEP_BUDGET):
            verdict, info = run_once(check, case, obs, 300)
    except core.StepBudget:
        alarm(0)
        return 'violation', core.Violation(
            'no end after {} steps of satisfy on a problem that takes a tiny fraction of that'.format(STEP_BUDGET),
            key='nontermination')
    if verdict == 'hang':
        return 'inconclusive', 'case ran into the wall-clock guard twice'
    return verdict, info


def make_case(check, tier, seed, i, fixed):
    if i < len(fixed):
        case = fixed[i]
    else:
        rng = random.Random('{}:{}:{}'.format(check.id, seed, i))
        case = check.gen(rng, i, tier)
    return json.loads(json.dumps(case))     # exactly what a replay will read back


def worker(check, tier, seed, w, nworkers, total, fixed, stop, path, deadline, keep):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    logging.disable(logging.CRITICAL)

    def on_alarm(*_):
        raise core.Watchdog()
    signal.signal(signal.SIGALRM, on_alarm)
    obs = core.Obs()
    out = {'done': 0, 'skipped': 0, 'violations': [], 'errors': [], 'inconclusive': [], 'samples': [], 'cut': 0}
    wall = check.case_wall * (1 if tier == 'quick' else 4)
    devnull = open(os.devnull, 'w')
    for i in range(w, total, nworkers):
        if stop.is_set():
            break
        if REAL_TIME() > deadline:
            out['cut'] += 1
            break
        random.seed('{}:{}:{}:global'.format(check.id, seed, i))   # RANDOM policy uses the global generator
        case = None
        try:
            case = make_case(check, tier, seed, i, fixed)
        except core.Skip:
            out['skipped'] += 1
            continue
        except BaseException:
            out['errors'].append('case {}: {}'.format(i, traceback.format_exc()[-3000:]))
            break
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = devnull, devnull
        try:
            verdict, info = run_case(check, case, obs, wall)
        finally:
            sys.stdout, sys.stderr = so, se
        if verdict == 'skip':
            out['skipped'] += 1
            continue
        if verdict == 'error':
            out['errors'].append('case {}: {}'.format(i, info[-3000:]))
            break
        if verdict == 'inconclusive':
            out['inconclusive'].append('case {}: {}'.format(i, info))
            break
        out['done'] += 1
        if obs.current_nontrivial:
            obs.nontrivial_cases.add(core.digest(core.canonical(case)))
            if len(out['samples']) < 2:
                out['samples'].append(case)
        if verdict == 'violation':
            out['violations'].append({'index': i, 'case': case, 'message': info.message, 'key': info.key,
                                      'detail': {k: repr(v)[:3000] if not isinstance(v, str) else v[:3000]
                                                 for k, v in info.detail.items()}})
            if len(out['violations']) >= keep:
                stop.set()
                break
    out['counters'] = dict(obs.counters)
    out['maxima'] = obs.maxima
    out['distinct'] = {k: sorted(v) for k, v in obs.distinct.items()}
    out['nontrivial'] = sorted(obs.nontrivial_cases)
    with open(path, 'w') as f:
        json.dump(out, f, default=repr)


def child(args, **env):
    """Command and environment of an interpreter of its own, which shares the bytecode cache of this run only."""
    full = dict(os.environ, **env)
    if os.environ.get('VMON_PYC'):
        full['PYTHONPYCACHEPREFIX'] = os.environ['VMON_PYC']
        full.pop('PYTHONDONTWRITEBYTECODE', None)
    return [sys.executable] + args, full


# ---------------------------------------------------------------------------- known findings
def known_findings():
    found = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                fields = dict(tok.split('=', 1) for tok in line[8:].split(' ', 3)[1:3])
                found[(fields['property'], fields['key'])] = line
    return found


# ---------------------------------------------------------------------------- main
def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--keep', type=int, default=int(os.environ.get('VMON_KEEP', 1)))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ns = ap.parse_args(argv)
    os.environ['VMON_PYC'] = tempfile.mkdtemp(prefix='vmon-pyc-')
    try:
        return checked(ns)
    finally:
        shutil.rmtree(os.environ.pop('VMON_PYC'), ignore_errors=True)


def checked(ns):
    t0 = REAL_TIME()
    load_checks()
    if ns.property not in core.REGISTRY:
        print('unknown property', ns.property)
        return 2
    check = core.REGISTRY[ns.property]
    os.environ.update(check.env)
    if check.virtual_clock:
        from . import clock
        clock.install()
    if not os.path.isdir(REPO_SRC):
        print('no source tree at', REPO_SRC)
        return 2
    if ns.replay:
        return replay(check, ns)
    tier, seed = ns.tier, ns.seed
    fixed = list(check.fixed(tier))
    total = ns.cases or len(fixed) + (check.quick if tier == 'quick' else check.thorough)
    deadline = t0 + (600 if tier == 'quick' else 6 * 3600)
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    tmp = tempfile.mkdtemp(prefix='vmon-')
    procs = []
    merged = {'done': 0, 'skipped': 0, 'violations': [], 'errors': [], 'inconclusive': [], 'samples': [], 'cut': 0}
    counters, maxima, distinct, nontrivial = {}, {}, {}, set()
    try:
        for w in range(ns.workers):
            path = os.path.join(tmp, '{}.json'.format(w))
            p = ctx.Process(target=worker, args=(check, tier, seed, w, ns.workers, total, fixed, stop, path,
                                                 deadline, ns.keep))
            p.start()
            procs.append((p, path))
        for p, path in procs:
            p.join()
            if not os.path.exists(path):
                merged['errors'].append('worker ended with {} and no report'.format(p.exitcode))
                continue
            out = json.load(open(path))
            for k in ('done', 'skipped', 'cut'):
                merged[k] += out[k]
            for k in ('violations', 'errors', 'inconclusive', 'samples'):
                merged[k].extend(out[k])
            for k, n in out['counters'].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in out['maxima'].items():
                maxima[k] = max(n, maxima.get(k, n))
            for k, v in out['distinct'].items():
                distinct.setdefault(k, set()).update(v)
            nontrivial.update(out['nontrivial'])
    finally:
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)

    known = known_findings()
    fresh, listed = [], {}
    for v in merged['violations']:
        line = known.get((check.id, v['key'] or ''))
        if line:
            listed.setdefault(line, v)
        else:
            fresh.append(v)
    fresh.sort(key=lambda v: len(core.canonical(v['case'])))
    for line in listed:
        print('KNOWN-FINDING: property={} {}'.format(check.id, line.split(' ', 3)[-1]))

    wall = round(REAL_TIME() - t0, 3)
    missing = {k: n for k, n in check.need.items() if counters.get(k, 0) < n} if not ns.cases else {}
    observed = {'observed': counters, 'peak': maxima, 'distinct_observed': {k: len(v) for k, v in distinct.items()}}
    evidence = {
        'property': check.id, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'exploration',
        'coverage': dict(evaluations=merged['done'], distinct_nontrivial=len(nontrivial), rule=check.rule,
                         samples=[json.dumps(s, default=repr)[:1500] for s in merged['samples'][:4]],
                         skipped_outside_domain=merged['skipped'], **observed),
        'assumptions': ['held only on the executions observed; the reference model in /verif/vmon and '
                        '/verif/checks is trusted'],
        'wall_s': wall, 'violations': len(fresh)}
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, check.id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    print('{} {} seed={}: {} executions judged, {} outside the domain, {} distinct non-trivial, {:.1f}s'.format(
        check.id, tier, seed, merged['done'], merged['skipped'], len(nontrivial), wall))
    print('  observed:', ', '.join('{}={}'.format(k, counters[k]) for k in sorted(counters)))
    if maxima or distinct:
        print('  peak/distinct:', ', '.join(['{}<={}'.format(k, maxima[k]) for k in sorted(maxima)] +
                                            ['{}#{}'.format(k, len(distinct[k])) for k in sorted(distinct)]))
    if fresh:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = fresh if ns.keep > 1 else fresh[:1]
        for n, v in enumerate(shown):
            path = os.path.join(rdir, '{}-{}-{}-{}.json'.format(check.id, tier, seed, v['index']))
            with open(path, 'w') as f:
                json.dump(dict(v, property=check.id, tier=tier, seed=seed), f, indent=1, default=repr)
            print('  {}'.format(v['message']))
            for k, d in v['detail'].items():
                print('    {}: {}'.format(k, d if len(d) < 1200 else d[:1200] + '...'))
            print('    case: {}'.format(core.canonical(v['case'])[:1200]))
            print('VIOLATION property={} replay={}'.format(check.id, path))
        return 1
    if merged['errors']:
        print('ERROR of the machinery:', merged['errors'][0])
        return 2
    if merged['inconclusive'] or missing or merged['done'] == 0:
        print('INCONCLUSIVE: {} {}'.format(merged['inconclusive'][:1], 'monitors not reached: %s' % missing if missing else ''))
        return 2
    print('HELD on everything explored')
    return 0


def replay(check, ns):
    data = json.load(open(ns.replay))
    logging.disable(logging.CRITICAL)

    def on_alarm(*_):
        raise core.Watchdog()
    signal.signal(signal.SIGALRM, on_alarm)
    random.seed('{}:{}:{}:global'.format(check.id, data['seed'], data['index']))
    obs = core.Obs()
    verdict, info = run_case(check, data['case'], obs, check.case_wall)
    print(verdict, info.message if isinstance(info, core.Violation) else info)
    if isinstance(info, core.Violation):
        for k, d in info.detail.items():
            print('  {}: {}'.format(k, d))
        print('VIOLATION property={} replay={}'.format(check.id, ns.replay))
        return 1
    return 0 if verdict == 'held' else 2
