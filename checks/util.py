"""U01, U02: timers and the two singletons."""
import copy
import importlib
import os
import pickle
import pkgutil
import subprocess
import sys
import threading

from vmon import sut
from vmon.clock import CLOCK
from vmon.core import Check, Violation, register, require


# ------------------------------------------------------------------ U01
def gen_u01(rng, i, tier):
    ops = []
    k = rng.randint(1, 3)
    for _ in range(rng.randint(1, 60)):
        t = rng.randrange(k)
        r = rng.random()
        if r < 0.3:
            ops.append(['tick', rng.choice([0, 1, 1, 2, 3, 8, 1000]) / 8])
        elif r < 0.5:
            ops.append(['start', t])
        elif r < 0.7:
            ops.append(['stop', t, rng.choice([None, None, None, 0, 1, 2, 5])])
        elif r < 0.8:
            ops.append(['abort', t])
        elif r < 0.95:
            ops.append(['read', t])
        else:
            ops.append(['stats', t])
    return {'timers': k, 'ops': ops, 'at': rng.choice([None, None, 0.0, -2.0, 1e6])}


def run_u01(case, obs):
    saved = CLOCK.t
    if case['at'] is not None:
        CLOCK.t = case['at']            # the clock of a timer may have any reading, zero included
    try:
        timers_against_reference(case, obs)
    finally:
        CLOCK.t = saved


def timers_against_reference(case, obs):
    T = sut.S().utils.Timer
    timers = [T() for _ in range(case['timers'])]
    ref = [{'sum': 0.0, 'since': None, 'count': 0} for _ in timers]

    def agree(where):
        for k, (t, r) in enumerate(zip(timers, ref)):
            cur = CLOCK.t - r['since'] if r['since'] is not None else 0.0
            require(t.elapsed() == r['sum'] + cur, 'a timer shows {} instead of {}'.format(t.elapsed(), r['sum'] + cur),
                    timer=k, after=where)
            require(t.count() == r['count'], 'a timer counts {} instead of {}'.format(t.count(), r['count']), timer=k, after=where)
            require(bool(t.running()) == (r['since'] is not None), 'a timer is wrong about running', timer=k, after=where)
            if r['since'] is None:
                st = t.stats()
                require(st.elapsed == r['sum'] and st.count == r['count'], 'the statistics of a stopped timer are wrong',
                        stats=repr(st), want=[r['count'], r['sum']], after=where)
            obs.count('readings')
    for op in case['ops']:
        if op[0] == 'tick':
            CLOCK.advance(op[1])
        else:
            t, r = timers[op[1]], ref[op[1]]
            running = r['since'] is not None
            if op[0] == 'start':
                try:
                    t.start()
                    require(not running, 'a running timer can be started')
                    r['since'] = CLOCK.t
                    obs.count('starts')
                except RuntimeError:
                    require(running, 'a stopped timer cannot be started')
                    obs.count('refused')
            elif op[0] == 'stop':
                try:
                    t.stop() if op[2] is None else t.stop(count=op[2])
                    require(running, 'a stopped timer can be stopped')
                    r['sum'] += CLOCK.t - r['since']
                    r['since'] = None
                    r['count'] += 1 if op[2] is None else op[2]
                    obs.count('stops')
                except RuntimeError:
                    require(not running, 'a running timer cannot be stopped')
                    obs.count('refused')
            elif op[0] == 'abort':
                t.abort()
                if running:
                    r['sum'] += CLOCK.t - r['since']
                    r['since'] = None
                    obs.count('aborts')
                else:
                    obs.count('idle_aborts')
            elif op[0] == 'stats':
                t.stats()
        agree(op)
    if any(r['sum'] for r in ref):
        obs.nontrivial()


register(Check(
    'U01', 'random sequences of up to 60 starts, stops (with counts), aborts, readings and clock advances on one to three timers under an exact '
           'virtual clock, against a reference timer, errors included; non-trivial: a positive elapsed time',
    gen_u01, run_u01, quick=48000, thorough=300000, virtual_clock=True,
    need={'starts': 5000, 'stops': 5000, 'refused': 5000, 'aborts': 500, 'idle_aborts': 500, 'readings': 50000}))


# ------------------------------------------------------------------ U02
NAMES = ['INFINITY', 'UNDEFINED']
THREAD_CODE = '''
import sys, threading
sys.path.insert(0, {src!r})
sys.setswitchinterval(1e-6)
n = {n}
go, got = threading.Barrier(n), []
def work():
    go.wait()
    from satisfy import utils
    for _ in range(200):
        got.append((id(utils.INFINITY), id(type(utils.INFINITY)()), id(utils.UNDEFINED), id(type(utils.UNDEFINED)())))
ts = [threading.Thread(target=work) for _ in range(n)]
[t.start() for t in ts]
[t.join() for t in ts]
assert len(got) == 200 * n, 'a thread failed'
assert len(set(got)) == 1 and got[0][0] == got[0][1] and got[0][2] == got[0][3] and got[0][0] != got[0][2], 'several objects'
print('same')
'''


def all_modules():
    import satisfy
    return ['satisfy'] + sorted(m.name for m in pkgutil.walk_packages(satisfy.__path__, 'satisfy.'))


def fixed_u02(tier):
    out = [{'what': 'module', 'k': k} for k in range(40)]
    out += [{'what': 'import_threads', 'n': n} for n in (2, 8, 16)]
    out += [{'what': 'process', 'proto': p} for p in (0, pickle.HIGHEST_PROTOCOL)]
    return out


def gen_u02(rng, i, tier):
    what = rng.choice(['chain', 'chain', 'chain', 'limit', 'limit', 'threads'])
    if what == 'chain':
        return {'what': what, 'name': rng.choice(NAMES), 'steps': [rng.choice(
            ['new', 'copy', 'deepcopy', 'pickle', 'list', 'dict', 'deeplist', 'picklelist', 'str', 'module']) for _ in range(rng.randint(1, 8))]}
    if what == 'threads':
        return {'what': what, 'n': rng.randint(2, 6)}
    return {'what': what, 'where': rng.choice(['solver', 'call', 'optimize', 'optimal', 'sudoku', 'knapsack', 'modelsolver', 'graph',
                                               'nonogram', 'cryptarithm', 'queens', 'map']),
            'arg': rng.choice(['limit', 'timeout', 'both']), 'n': rng.randint(1, 3),
            'own': rng.choice([None, None, 1, 'inf'])}


def run_u02(case, obs):
    u = sut.S().utils
    what = case['what']
    if what == 'module':
        mods = all_modules()
        require(len(mods) >= 10, 'modules cannot be found')
        if case['k'] < len(mods):
            m = importlib.import_module(mods[case['k']])
            for name in getattr(m, '__all__', []):
                require(hasattr(m, name), '{} exports {}, which does not exist'.format(mods[case['k']], name))
                obs.count('exports')
            exec('from {} import *'.format(mods[case['k']]), {})
            obs.count('modules')
        return
    if what == 'import_threads':
        src = os.path.join(os.environ.get('VMON_REPO', '/repo'), 'src')
        r = subprocess.run([sys.executable, '-B', '-c', THREAD_CODE.format(src=src, n=case['n'])], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        require(r.stdout.strip() == b'same', 'threads see different objects', stderr=r.stderr.decode()[-1500:])
        obs.count('concurrent_imports')
        return
    if what == 'process':
        src = os.path.join(os.environ.get('VMON_REPO', '/repo'), 'src')
        code = ('import sys, pickle; sys.path.insert(0, {!r}); a, b, c = pickle.load(sys.stdin.buffer); from satisfy import utils; '
                'assert a is utils.INFINITY and b is utils.UNDEFINED and c is a; print("same")').format(src)
        r = subprocess.run([sys.executable, '-B', '-c', code], input=pickle.dumps((u.INFINITY, u.UNDEFINED, u.INFINITY), case['proto']),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        require(r.stdout.strip() == b'same', 'another process restores another object', stderr=r.stderr.decode()[-1500:])
        obs.count('processes')
        return
    if what == 'chain':
        x = orig = getattr(u, case['name'])
        for step in case['steps']:
            if step == 'new':
                y = type(x)()
            elif step == 'copy':
                y = copy.copy(x)
            elif step == 'deepcopy':
                y = copy.deepcopy(x)
            elif step == 'pickle':
                for proto in range(pickle.HIGHEST_PROTOCOL + 1):
                    y = pickle.loads(pickle.dumps(x, proto))
                    require(y is orig, 'pickling with protocol {} makes another {}'.format(proto, case['name']))
            elif step == 'list':
                y = copy.copy([x])[0]
            elif step == 'dict':
                y = copy.deepcopy({x: [x]})[x][0]
            elif step == 'deeplist':
                y = copy.deepcopy([x, (x,)])[1][0]
            elif step == 'picklelist':
                y = pickle.loads(pickle.dumps([x, {'k': x}]))[1]['k']
            elif step == 'module':
                y = getattr(importlib.import_module('satisfy.utils'), case['name'])
            else:
                y = x
                for text in (str(x), repr(x), '{}'.format(x), '%s' % (x,), '{!r}'.format([x])):
                    require(isinstance(text, str) and text, 'no text')
            require(y is orig, '{} after {} is another object'.format(case['name'], step), steps=case['steps'])
            x = y
            obs.count('obtained')
        require(u.INFINITY is not u.UNDEFINED and type(u.INFINITY)() is not type(u.UNDEFINED)(), 'INFINITY and UNDEFINED are one object')
        require(str(u.INFINITY) != str(u.UNDEFINED) and repr(u.INFINITY) != repr(u.UNDEFINED), 'INFINITY and UNDEFINED read the same')
        obs.nontrivial()
        return
    if what == 'threads':
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        got, errors = [], []
        go = threading.Barrier(case['n'])

        def work():
            try:
                go.wait(10)
                for _ in range(100):
                    got.append((type(u.INFINITY)(), copy.deepcopy(u.INFINITY), type(u.UNDEFINED)(), copy.copy(u.UNDEFINED)))
            except BaseException as exc:
                errors.append(exc)
        try:
            ts = [threading.Thread(target=work) for _ in range(case['n'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        require(all(a is u.INFINITY and b is u.INFINITY and c is u.UNDEFINED and d is u.UNDEFINED for a, b, c, d in got),
                'a thread obtains another object')
        obs.count('threads', case['n'])
        return
    infinite_arguments(case, obs, u)


def infinite_arguments(case, obs, u):
    s = sut.S()
    where, n = case['where'], case['n']
    kw = {}
    if case['arg'] in ('limit', 'both'):
        kw['limit'] = u.INFINITY
    if case['arg'] in ('timeout', 'both'):
        kw['timeout'] = u.INFINITY
    own = {} if case['own'] is None else {'limit': u.INFINITY if case['own'] == 'inf' else case['own']}
    model = s.model.Model()
    xs = [model.add_int_variable(domain=range(3)) for _ in range(n)]
    obj = s.objective.Maximize(sum(x for x in xs))
    apps = importlib.import_module
    CLOCK.tick = 1.0
    try:
        if where == 'solver':
            solver = s.solver.Solver(**kw)
            got, want = len(list(solver.solve(model))), 3 ** n
        elif where == 'call':
            solver = s.solver.Solver(**own) if 'limit' in kw else s.solver.Solver(timeout=0.0)
            got, want = len(list(solver.solve(model, **kw))), 3 ** n
        elif where == 'optimize':
            solver = s.solver.Solver(**kw)
            got, want = [o.solution for o in solver.optimize(model, obj)][-1], {x.name: 2 for x in xs}
        elif where == 'optimal':
            solver = s.solver.Solver(**(own if 'limit' in kw else {}))
            r = solver.optimal_solution(model, obj, **kw)
            got, want = (r.is_optimal, r.solution), (True, {x.name: 2 for x in xs})
        elif where == 'modelsolver':
            ms = s.solver.ModelSolver(model=model, **kw)
            solver, got, want = ms, len(list(ms)), 3 ** n
        elif where == 'knapsack':
            solver = apps('satisfy.knapsack').KnapsackOptimizer([1, 2, 3], [3], [[1], [2], [3]], **kw)
            r = solver()
            got, want = (r.is_optimal, r.value), (True, 3)
        elif where == 'graph':
            import networkx
            solver = apps('satisfy.graph_labeling').GraphLabelingSolver(networkx.path_graph(n), 'abc', **kw)
            got, want = len(list(solver)), 3 * 2 ** (n - 1)
        elif where == 'nonogram':
            solver = apps('satisfy.nonogram').NonogramSolver({'rows': [[1]] * n, 'columns': [[1]] * n}, **kw)
            got, want = len(list(solver)), [1, 2, 6][n - 1]
        elif where == 'cryptarithm':
            solver = apps('satisfy.cryptarithm').CryptarithmSolver('A+B==9', **kw)
            got, want = len(list(solver)), 8
        elif where == 'queens':
            solver = apps('satisfy.tool.queens').QueensSolver(4, **kw)
            got, want = len(list(solver)), 2
        else:
            # these two stop at the first solution unless told otherwise
            kw['limit'] = u.INFINITY
            if where == 'sudoku':
                rows = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
                a, b = rows[0][0], rows[0][1]
                for row in rows:
                    for c in range(9):
                        if row[c] in (a, b):
                            row[c] = 0
                from checks.apps import sudoku_solve
                ref = len(sudoku_solve([v for row in rows for v in row], 10000))
                solver = apps('satisfy.sudoku').SudokuSolver(rows, **kw)
                got, want = len(list(solver)), ref
            else:
                solver = apps('satisfy.tool.ascii_map_coloring').AsciiMapColoringSolver('ab', **kw)
                got, want = len(list(solver)), 12
    finally:
        CLOCK.tick = 0.0
    require(got == want, 'INFINITY as {} is not like none ({})'.format(case['arg'], where), got=got, want=want)
    st = solver.get_stats()
    require(st.interrupt is None, 'INFINITY as {} interrupts ({})'.format(case['arg'], where), stats=repr(st))
    obs.count('infinite_' + where)
    obs.nontrivial()


register(Check(
    'U02', 'chains of construction, copy, deep copy and pickling (all protocols, inside containers), threads creating and copying them, '
           'concurrent first imports and unpickling in fresh processes, every exported name of every module, INFINITY as limit and timeout of '
           'every solver and front end under a ticking virtual clock; non-trivial: a chain or an infinite argument judged',
    gen_u02, run_u02, quick=7500, thorough=60000, virtual_clock=True, fixed=fixed_u02,
    need={'modules': 15, 'exports': 30, 'obtained': 2000, 'threads': 500, 'concurrent_imports': 3, 'processes': 2,
          'infinite_call': 30, 'infinite_sudoku': 20, 'infinite_knapsack': 20}))
