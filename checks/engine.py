"""S11..S14: the solver as an engine: reproducible, bounded in memory, honest about errors, configurable."""
import gc
import itertools
import json
import os
import random
import subprocess
import sys
import tracemalloc
import weakref

from vmon import ref, runner, sut
from vmon.clock import CLOCK
from vmon.core import Check, HarnessError, Skip, Violation, register, require
from checks import apps
from checks.opt import gen_objective
from checks.solver import DETERMINISTIC, Ticker, any_model, cap_of, gen_clocked, names_of, snapshot_model


# ------------------------------------------------------------------ S11
def gen_s11_job(rng, tier):
    if rng.random() < 0.08:
        # values that are texts, whose order in a set is that of the process
        names = rng.sample(ref.PLAIN, rng.randint(1, 3))
        words = ['red', 'green', 'blue', 'tea', 'milk', 'dog', 'cat', 'x', 'yy', 'zebra']
        spec = {'vars': [[n, rng.sample(words, rng.randint(3, 7)), 'list'] for n in names], 'params': [], 'cons': []}
        for n in names:
            if rng.random() < 0.7:
                spec['cons'].append(['user', ['ne', ['v', n], ['c', rng.choice(words)]], [n]])
        if len(names) > 1 and rng.random() < 0.6:
            spec['cons'].append(['ad', names])
        if len(names) > 1 and rng.random() < 0.4:
            spec['cons'].append(['user', ['ne', ['v', names[0]], ['v', names[1]]], names[:2]])
        return {'spec': spec, 'cfg': [rng.choice(DETERMINISTIC + ['GROUPS']), rng.random() < 0.6], 'limit': rng.choice([None, 2, 5]),
                'objective': ['C', 3], 'mm': 'm'}
    if rng.random() < 0.65:
        spec = any_model(rng, maxspace=200, maxvars=6)
        job = {'spec': spec, 'cfg': [rng.choice(DETERMINISTIC + ['GROUPS', 'RANDOM']), rng.random() < 0.6],
               'limit': rng.choice([None, None, 1, 2, 5]), 'objective': gen_objective(rng, spec), 'mm': rng.choice('mM')}
        if rng.random() < 0.2:
            job['extra'] = [ref.gen_constraint(rng, spec['vars'], [p[0] for p in spec['params']], consts=False)]
        return job
    app = rng.choice(['sudoku', 'nonogram', 'cryptarithm', 'cryptarithm', 'graph_labeling', 'graph_labeling', 'queens', 'map', 'knapsack'])
    job = {'app': app, 'limit': rng.choice([1, 2, 3, 10, None]),
           'policy': rng.choice([None, None, None, None, 'RANDOM', rng.choice(DETERMINISTIC)]) if app in ('cryptarithm', 'graph_labeling', 'nonogram') else None}
    if app == 'sudoku':
        grid = apps.random_grid(rng)
        for j in list(apps.unavoidable(rng, grid)) + rng.sample(range(81), rng.randint(5, 25)):
            grid[j] = 0
        job['problem'], job['limit'] = grid, rng.choice([1, 2, 3])
    elif app == 'nonogram':
        n, m = rng.randint(2, 4), rng.randint(2, 4)
        pic = [[rng.randint(0, 1) for _ in range(m)] for _ in range(n)]
        job['problem'] = [[apps.runs(r) for r in pic], [apps.runs(c) for c in zip(*pic)]]
    elif app == 'cryptarithm':
        k = rng.randint(3, 5)
        letters = rng.sample('ABCDEFGHIJKLMNOPQRSTUVWXYZ', k)
        word = lambda: ''.join(rng.choice(letters) for _ in range(rng.choice([1, 1, 2])))
        job['problem'] = '{}{}{}{}{}'.format(word(), rng.choice('+-*+'), word(), rng.choice(['==', '<', '!=', '>=']), word())
        job['limit'] = rng.choice([1, 2, 3, 10])
    elif app == 'graph_labeling':
        n = rng.randint(1, 5)
        names = ['node{}'.format(k) for k in range(n)]
        rng.shuffle(names)
        edges = [[a, b] for a, b in itertools.combinations(names, 2) if rng.random() < 0.5]
        job['problem'] = [names, edges, rng.sample(['red', 'blue', 'green', 'yellow', 'black'], rng.randint(1, 4))]
    elif app == 'queens':
        job['problem'] = rng.randint(1, 6)
    elif app == 'map':
        p = apps.gen_a10(rng, 0, 'quick')
        while len(p['colors'] or 'four') ** len(apps.regions_of(p['rows'])[1]) > 5000:
            p = apps.gen_a10(rng, 0, 'quick')
        job['problem'], job['limit'] = [p['rows'], p['colors'] or ['red', 'green', 'blue', 'yellow']], rng.choice([1, 2, 5])
    else:
        p = apps.gen_a07(rng, 0, 'quick')
        job['problem'] = [p['values'], p['caps'], p['weights']]
    return job


def gen_s11(rng, i, tier):
    return {'jobs': [dict(gen_s11_job(rng, tier), seed=rng.randrange(10**9)) for _ in range(30)], 'seeds': [rng.randrange(1, 2**32) for _ in range(2)]}


def run_streams(jobs, seed):
    args, env = runner.child([os.path.join(runner.HERE, 'vmon', 'streams.py'), runner.HERE], PYTHONHASHSEED=str(seed))
    r = subprocess.run(args, env=env, input=json.dumps(jobs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise Violation('a process solving models fails', stderr=r.stderr.decode('utf-8', 'replace')[-2000:], seed=seed)
    return json.loads(r.stdout.decode())


def run_s11(case, obs):
    outs = [run_streams(case['jobs'], seed) for seed in case['seeds']]
    obs.count('processes', len(outs))
    for seed in case['seeds']:
        obs.see('hash_seed', seed)
    for k, job in enumerate(case['jobs']):
        for out, seed in zip(outs, case['seeds']):
            runs = out[k]
            if runs and runs[0] == 'exception':
                raise Violation('an unexpected exception', exception=runs, job=job)
            for again in runs[1:]:
                require(again == runs[0], 'solving the same model again in the same process yields another stream', job=job,
                        first=runs[0], again=again, seed=seed)
        for out, seed in zip(outs[1:], case['seeds'][1:]):
            require(out[k] == outs[0][k], 'the stream depends on the process', job=job, one=outs[0][k][0], other=out[k][0],
                    hash_seeds=case['seeds'])
        obs.count('jobs_compared_' + job.get('app', 'model'))
        if 'RANDOM' in (job.get('policy'), job.get('cfg', [None])[0]):
            obs.count('random_streams_compared')
        first = outs[0][k][0]
        if 'app' not in job:
            first = first[0]
        obs.see('stream', first)
        if len(first) > 1:
            obs.count('streams_of_several_solutions')
            obs.nontrivial()


register(Check(
    'S11', 'batches of 30 models and puzzles, each solved, optimized and solved again (same model, rebuilt model) in two processes '
           'with different hash seeds and address layouts; the recorded streams are compared item by item; non-trivial: a '
           'stream of several solutions',
    gen_s11, run_s11, quick=220, thorough=4000, case_wall=90,
    need={'jobs_compared_model': 3000, 'jobs_compared_cryptarithm': 200, 'jobs_compared_graph_labeling': 200,
          'streams_of_several_solutions': 2000, 'random_streams_compared': 300, 'processes': 400}))


# ------------------------------------------------------------------ S12
class Enough(Exception):
    pass


def gen_s12(rng, i, tier):
    kind = ['solutions', 'deadends', 'repeats', 'improvements', 'apps', 'repeats', 'solutions', 'mixed'][i % 8]
    case = {'kind': kind, 'cfg': sut.gen_cfg(rng), 'trace': rng.random() < 0.5, 'shuffle': rng.randrange(10**6),
            'n': rng.randint(8, 14), 'd': rng.randint(3, 5), 'events': 1500}
    if kind == 'repeats':
        case['spec'] = any_model(rng, maxspace=40, maxvars=4, user=False)
        case['ways'] = [rng.choice(['all', 'limit', 'abandon', 'extra', 'timeout', 'optimum', 'optimize']) for _ in range(rng.randint(1, 3))]
        case['extra'] = ref.gen_constraint(rng, case['spec']['vars'], [p[0] for p in case['spec']['params']], consts=False)
        case['events'] = 300
        case['rebuild'] = rng.random() < 0.3
    if kind == 'apps':
        case['app'] = rng.choice(['graph_labeling', 'map', 'nonogram', 'sudoku'])
        case['trace'] = case['trace'] and case['app'] != 'nonogram'
    return case


class Held:
    """What the process holds at two moments: interpreter blocks, and traced bytes."""
    def __init__(self, trace):
        self.trace, self.marks = trace, []
        if trace:
            tracemalloc.start()

    def mark(self):
        gc.collect()
        self.marks.append((sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0] if self.trace else 0))

    def stop(self):
        if self.trace:
            tracemalloc.stop()

    def judge(self, events, obs, what, **ctx):
        (b0, t0), (b1, t1) = self.marks
        obs.count('growth_measured')
        obs.count('events_' + what, events)
        obs.peak('blocks_gained', b1 - b0)
        obs.peak('bytes_gained', t1 - t0)
        require(b1 - b0 <= 120 + events // 20, 'memory grows with the {} of the search'.format(what), blocks_gained=b1 - b0,
                events=events, **ctx)
        require(t1 - t0 <= 6000 + 2 * events, 'memory grows with the {} of the search'.format(what), bytes_gained=t1 - t0,
                events=events, **ctx)


def run_s12(case, obs):
    held = Held(case['trace'])
    try:
        {'solutions': s12_solutions, 'deadends': s12_deadends, 'repeats': s12_repeats, 'improvements': s12_improvements,
         'apps': s12_apps, 'mixed': s12_solutions}[case['kind']](case, obs, held)
    finally:
        held.stop()
    obs.count('kind_' + case['kind'])
    obs.nontrivial()


def s12_solutions(case, obs, held):
    s = sut.S()
    rng = random.Random(case['shuffle'])
    model = s.model.Model()
    n, d = case['n'], case['d'] + 3
    names = ['v{}'.format(k) for k in range(n)]
    var = [model.add_int_variable(range(d), name=x) for x in names]
    degree = [0] * n
    for _ in range(n if case['kind'] == 'solutions' else 2 * n):
        a, b = rng.sample(range(n), 2)
        if max(degree[a], degree[b]) < d - 2:
            degree[a] += 1
            degree[b] += 1
            if rng.random() < 0.6:
                model.add_constraint(var[a] != var[b])
            else:
                model.add_all_different_constraint([var[a], var[b]])
    if case['kind'] == 'mixed':
        # about half of the assignments of the last variables are dead ends
        model.add_constraint(sum(var) % 2 == 0)
    solver = sut.make_solver(case['cfg'])
    gen = solver.solve(model)
    warm = 200
    for k, sol in enumerate(gen):
        if k == warm:
            sol = None
            held.mark()
        if k == warm + case['events']:
            sol = None
            held.mark()
            break
    else:
        raise Violation('an enormous solution set is reported to end')
    held.judge(case['events'], obs, 'solutions', cfg=case['cfg'])


def s12_deadends(case, obs, held):
    s = sut.S()
    model = s.model.Model()
    n = max(case['n'], 12)
    names = ['v{}'.format(k) for k in range(n)]
    var = [model.add_int_variable(range(max(4, case['d'])), name=x) for x in names]
    seen = [0]
    first, last = 400, 400 + 4 * case['events']

    def log(con, sub):
        seen[0] += 1
        if seen[0] == first or seen[0] == last:
            held.mark()
        if seen[0] == last:
            raise Enough()
    U = sut.user_constraint_class()
    rng = random.Random(case['shuffle'])
    for k in range(1, n):
        model.add_constraint(var[k - 1] != var[k])
    for _ in range(3):
        model.add_constraint(U(rng.sample(names, 2), lambda env: True, log))
    model.add_constraint(U(names, lambda env: False, log))
    try:
        for sol in sut.make_solver(case['cfg']).solve(model):
            raise Violation('a solution that violates a constraint')
    except Enough:
        pass
    else:
        raise Violation('the search ends without trying all assignments')
    held.judge(last - first, obs, 'dead_ends', cfg=case['cfg'])


def s12_repeats(case, obs, held):
    s = sut.S()
    b = sut.Built(case['spec'])
    solver = sut.make_solver(case['cfg'])
    extra = b.constraint(case['extra'])

    def once(k):
        if case['rebuild']:
            bb = sut.Built(case['spec'])
            ex = bb.constraint(case['extra'])
        else:
            bb, ex = b, extra
        way = case['ways'][k % len(case['ways'])]
        if way in ('optimum', 'optimize'):
            kind = s.objective.Maximize if case['shuffle'] % 2 else s.objective.Minimize
            objective = kind(sum(bb.var.values()) + 0)
            if way == 'optimum':
                solver.optimal_solution(bb.model, objective)
            else:
                next(solver.optimize(bb.model, [objective, objective]), None)
            return
        kw = {'all': {}, 'limit': {'limit': 1}, 'abandon': {}, 'extra': {'additional_constraints': [ex]},
              'timeout': {'timeout': 0.0}}[way]
        gen = solver.solve(bb.model, **kw)
        if way == 'abandon':
            next(gen, None)
            if k % 2:
                gen.close()
        else:
            for sol in gen:
                pass
        solver.get_stats()
    for k in range(30):
        once(k)
    held.mark()
    for k in range(30, 30 + case['events']):
        once(k)
    held.mark()
    held.judge(case['events'], obs, 'solves', ways=case['ways'], cfg=case['cfg'])
    # what was solved is forgotten, though its solver lives on
    refs = []
    for k in range(len(case['ways'])):
        bb = sut.Built(case['spec'])
        refs.append(weakref.ref(bb.model))
        b, case = bb, dict(case, rebuild=False)
        extra = b.constraint(case['extra'])
        once(k)
    b = bb = extra = None
    gc.collect()
    require(all(r() is None for r in refs), 'a solver keeps models it has solved', ways=case['ways'],
            kept=[w for w, r in zip(case['ways'], refs) if r() is not None])
    obs.count('models_forgotten', len(refs))
    solver.get_stats()


def s12_improvements(case, obs, held):
    s = sut.S()
    model = s.model.Model()
    rng = random.Random(case['shuffle'])
    up = rng.random() < 0.5
    size = case['events'] + 300
    values = list(range(size)) if up else list(range(size, 0, -1))
    x = model.add_int_variable(values, name='x')
    y = model.add_int_variable([0, 1], name='y')
    model.add_constraint(x + y >= 0)
    obj = s.objective.Maximize(x + 0 * y) if up else s.objective.Minimize(x + y)
    n = 0
    for opt in sut.make_solver(['ORDERED', case['cfg'][1]]).optimize(model, obj):
        n += 1
        if n == 200 or n == 200 + case['events']:
            opt = None
            held.mark()
        if n == 200 + case['events']:
            break
    require(n == 200 + case['events'], 'the optimization skips improvements or ends early', improvements=n)
    held.judge(case['events'], obs, 'improvements', cfg=case['cfg'])


def s12_apps(case, obs, held):
    app = case['app']
    INF = apps.infinity()
    if app == 'graph_labeling':
        import networkx
        it = apps.mod('graph_labeling').GraphLabelingSolver(networkx.path_graph(10), 'abcd')
    elif app == 'map':
        it = apps.mod('tool.ascii_map_coloring').AsciiMapColoringSolver('a b c d\n\ne f g h', limit=INF)
    elif app == 'nonogram':
        it = apps.mod('nonogram').NonogramSolver({'rows': [[1]] * 6, 'columns': [[1]] * 6})
    else:
        it = apps.mod('sudoku').SudokuSolver([[0] * 9 for _ in range(9)], limit=INF)
    warm, events = (30, 100) if app == 'sudoku' else (100, 500)
    for k, sol in enumerate(it):
        if k in (warm, warm + events):
            sol = None
            held.mark()
        if k == warm + events:
            break
    else:
        raise Violation('fewer solutions than there are', app=app)
    held.judge(events, obs, 'solutions_of_applications', app=app)


register(Check(
    'S12', 'solves delivering thousands of solutions, meeting thousands of dead ends, optimizations with thousands of improvements, the same '
           'model solved hundreds of times (completely, limited, timed out, abandoned, with additional constraints), and the '
           'application solvers; the memory blocks and bytes the interpreter holds are measured at two moments and may not '
           'grow with the number of events',
    gen_s12, run_s12, quick=320, thorough=6000, case_wall=90,
    need={'models_forgotten': 60, 'growth_measured': 240, 'events_solutions': 100000, 'events_dead_ends': 100000, 'events_solves': 15000,
          'events_improvements': 40000}))


# ------------------------------------------------------------------ S13
class Boom(Exception):
    pass


class Halt(BaseException):
    pass


BOOMS = {'Boom': Boom, 'Halt': Halt, 'ValueError': ValueError, 'KeyError': KeyError, 'ZeroDivisionError': ZeroDivisionError,
         'IndexError': IndexError, 'TypeError': TypeError, 'AttributeError': AttributeError, 'NameError': NameError,
         'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError, 'OverflowError': OverflowError,
         'RecursionError': RecursionError, 'AssertionError': AssertionError, 'LookupError': LookupError, 'OSError': OSError,
         'SystemExit': SystemExit, 'NotImplementedError': NotImplementedError, 'UnicodeError': UnicodeError, 'MemoryError': MemoryError,
         'ArithmeticError': ArithmeticError, 'Exception': Exception, 'TimeoutError': TimeoutError, 'EOFError': EOFError,
         'BufferError': BufferError, 'UnboundLocalError': UnboundLocalError, 'StopAsyncIteration': StopAsyncIteration,
         'EvaluationError': 'EvaluationError'}


def boom(name):
    kind = BOOMS[name]
    return getattr(sut.S().expression, kind) if isinstance(kind, str) else kind


def partial_expr(rng, names):
    """A relation whose divisor can be zero, and which no simplification touches."""
    vs = rng.sample(names, min(len(names), rng.choice([1, 2, 2, 3])))
    v = lambda: ['v', rng.choice(vs)]
    num = rng.choice([v(), ['add', v(), ['c', 7]], ['mul', v(), ['c', 3]], ['sub', v(), v()]])
    den = rng.choice([v(), ['sub', v(), ['c', rng.choice([1, 2, 3])]], ['sub', v(), v()], ['sub', ['mul', v(), v()], ['c', 4]]])
    f = [rng.choice(ref.COMPARE), [rng.choice(['div', 'mod']), num, den], ['c', rng.choice([0, 1, 2, -1])]]
    if rng.random() < 0.3:
        g = [rng.choice(ref.COMPARE), v(), ['c', rng.choice([0, 1, 2])]]
        f = [rng.choice(['or', 'and']), g, f]
    return f


def gen_s13(rng, i, tier):
    spec = ref.gen_model(rng, maxspace=200, maxvars=4, user=False, awkward=0, empty=0.01, maxcons=3)
    names = names_of(spec)
    failing = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        if rng.random() < 0.5:
            vs = rng.sample(names, min(len(names), rng.choice([1, 2, 2, 3])))
            doms = [v[1] for n in vs for v in spec['vars'] if v[0] == n]
            combos = list(itertools.product(*doms))
            if not combos:
                continue
            bad = rng.sample(combos, min(len(combos), rng.choice([1, 1, 2, 5])))
            no = [c for c in combos if c not in bad and rng.random() < 0.2]
            failing.append(['user', vs, bad, no, rng.choice(sorted(BOOMS))])
        else:
            failing.append(['expr', partial_expr(rng, names)])
    obj = None
    if rng.random() < 0.45:
        obj = [rng.choice('mM'), rng.choice(['div', 'mod']), rng.choice(names), rng.choice(names), rng.choice([0, 1, 2])]
    return {'spec': spec, 'failing': failing, 'obj': obj, 'cfg': sut.gen_cfg(rng),
            'how': rng.choice(['solve', 'solve', 'modelsolver', 'optimal', 'optimize', 'extra']), 'at': [rng.random() for _ in failing]}


class FailingClass:
    cls = None


def failing_class():
    if FailingClass.cls is None:
        class Failing(sut.S().constraint.Constraint):
            armed = True

            def __init__(self, names, bad, no, exc):
                super().__init__(names)
                self.order, self.exc = list(names), boom(exc)
                self.bad, self.no = {tuple(x) for x in bad}, {tuple(x) for x in no}

            def evaluate(self, substitution):
                t = tuple(substitution[n] for n in self.order)
                if t in self.bad and self.armed:
                    raise self.exc('planted')
                return t not in self.no
        FailingClass.cls = Failing
    return FailingClass.cls


def run_s13(case, obs):
    s = sut.S()
    spec = case['spec']
    rm = ref.RefModel(spec)
    names = rm.names
    b = sut.Built(spec)
    E = 'error'
    tables, objects, types = [], [], set()
    for f in case['failing']:
        if f[0] == 'user':
            bad, no = {tuple(x) for x in f[2]}, {tuple(x) for x in f[3]}
            tables.append((f[1], lambda t, bad=bad, no=no: E if t in bad else t not in no))
            objects.append(failing_class()(f[1], f[2], f[3], f[4]))
            types.add(boom(f[4]))
        else:
            vs = ref.variables(f[1])
            g = ref.fn(f[1])

            def table(t, vs=vs, g=g):
                try:
                    return bool(g(dict(zip(vs, t)), {}))
                except ref.Undefined:
                    return E
            if not vs:
                raise Skip()
            tables.append((vs, table))
            objects.append(b.constraint(['expr', f[1]]))
            types.add(ZeroDivisionError)
    dom = dict(zip(names, rm.domains))
    how = case['how']
    objective, obj_vars = None, []
    if case['obj'] and how in ('optimal', 'optimize'):
        mm, op, x, y, c = case['obj']
        expr = [op, ['add', ['v', x], ['c', 9]], ['sub', ['v', y], ['c', c]]]
        obj_vars = ref.variables(expr)
        og = ref.fn(expr)

        def obj_table(t):
            try:
                og(dict(zip(obj_vars, t)), {})
                return True
            except ref.Undefined:
                return E
        types.add(ZeroDivisionError)
        sign = -1 if mm == 'm' else 1

        def value(t):
            env = dict(zip(names, t))
            return sign * og({v: env[v] for v in obj_vars}, {})
        objective = (s.objective.Minimize if mm == 'm' else s.objective.Maximize)(sut.build_expr(expr, b.var, b.par))
    elif how in ('optimal', 'optimize'):
        objective = s.objective.Maximize(sum(b.var.values()) + 0)
        value = sum
    everything = tables + ([(obj_vars, obj_table)] if obj_vars else [])
    possible = any(r(t) is E for vs, r in everything for t in itertools.product(*[dom[v] for v in vs]))
    good, must, doubtful = [], [], []
    for t in rm.solutions():
        env = dict(zip(names, t))
        verdicts = [r(tuple(env[v] for v in vs)) for vs, r in tables]
        if any(v is False for v in verdicts):
            continue
        if E not in verdicts:
            good.append(t)
        if objective is None:
            if E in verdicts:
                must.append(t)
        elif obj_vars and obj_table(tuple(env[v] for v in obj_vars)) is E:
            must.append(t)
        elif E in verdicts:
            doubtful.append(t)
    if doubtful:
        # the bound of an optimization may exclude them before the failing constraint is asked, unless nothing beats them
        worth = {t: value(t) for t in doubtful}
        rivals = [value(t) for t in good if t not in must]
        must += [t for t in doubtful if all(worth[t] > r for r in rivals)]
    if how != 'extra':
        for o in objects:
            b.model.add_constraint(o)
    solver = sut.make_solver(case['cfg'])
    kw = {'additional_constraints': objects} if how == 'extra' else {}
    got, raised, best = [], None, None
    ok = set(good)

    def take(items):
        for item in items:
            got.append(sut.as_tuple(item, names))
            require(got[-1] in ok, 'a solution on which a constraint is false or fails', got=got[-1], cfg=case['cfg'])
            require(len(got) <= len(ok), 'a solution is repeated')
    try:
        if how == 'modelsolver':
            take(s.solver.ModelSolver(model=b.model, solver=solver))
        elif how in ('solve', 'extra'):
            take(solver.solve(b.model, **kw))
        elif how == 'optimize':
            take(o.solution for o in solver.optimize(b.model, objective))
        else:
            best = solver.optimal_solution(b.model, objective)
    except tuple(types) as exc:
        raised = exc
    require(raised is None or possible, 'an error although no constraint can fail', error=repr(raised))
    require(raised is not None or not must, 'an assignment on which a constraint fails is silently accepted or dropped', cfg=case['cfg'],
            assignment=must[:2], how=how, failing=case['failing'], objective=case['obj'])
    require(raised is None or type(raised) in types, 'the error arrives as another one', error=repr(raised))
    if raised is None:
        if how in ('solve', 'extra', 'modelsolver'):
            require(sorted(got) == sorted(good), 'wrong solutions of a model some of whose constraints can fail', cfg=case['cfg'],
                    missing=sorted(ok - set(got))[:3], failing=case['failing'])
        elif how == 'optimize':
            require(bool(got) == bool(good), 'no solution of an optimization although there are', good=good[:2])
        else:
            require((best.solution is not None) == bool(good) and bool(best.is_optimal) == bool(good), 'wrong optimum', good=good[:2],
                    result=repr(best))
        obs.count('ends_possible_errors' if possible else 'ends_no_error_possible')
    else:
        obs.count('errors_delivered')
        obs.count('errors_' + type(raised).__name__)
        if got:
            obs.count('errors_after_solutions')
        obs.nontrivial()
    solver.get_stats()
    # the solver and the model can be used again
    failing_class().armed = False
    try:
        clean = sut.Built({'vars': spec['vars'], 'params': spec['params'], 'cons': spec['cons']})
        want = rm.solutions()
        again = sut.collect(solver.solve(clean.model), names, cap_of(rm))
        require(sorted(again) == sorted(want), 'after an error the solver does not work as before', missing=sorted(set(want) - set(again))[:3],
                extra=sorted(set(again) - set(want))[:3])
        st = solver.get_stats()
        require(st.count == len(want) and st.interrupt is None, 'after an error the statistics are wrong', stats=repr(st))
        if all(f[0] == 'user' for f in case['failing']):
            # none of the constraints fails any more: the same model is solved
            nos = [(f[1], {tuple(x) for x in f[3]}) for f in case['failing']]
            calm = [t for t in want if all(tuple(dict(zip(names, t))[v] for v in vs) not in no for vs, no in nos)]
            again = sut.collect(solver.solve(b.model, **kw), names, cap_of(rm))
            require(sorted(again) == sorted(calm), 'after an error the model is not solved as before', cfg=case['cfg'],
                    missing=sorted(set(calm) - set(again))[:3], extra=sorted(set(again) - set(calm))[:3])
            obs.count('solved_again_after')
    finally:
        failing_class().armed = True


register(Check(
    'S13', 'models with constraints and objectives that fail for some values (division by zero, user-defined constraints raising one of '
           '18 exceptions, some not derived from Exception), solved, optimized and solved again; for every assignment an independent '
           'three-valued table says whether a complete run must, may or must not raise; non-trivial: an error reached the consumer',
    gen_s13, run_s13, quick=12000, thorough=150000,
    need={'errors_delivered': 2500, 'errors_after_solutions': 300, 'ends_no_error_possible': 800, 'ends_possible_errors': 200,
          'solved_again_after': 2000, 'errors_Halt': 20, 'errors_KeyboardInterrupt': 20, 'errors_ZeroDivisionError': 800}))


# ------------------------------------------------------------------ S14
def gen_s14(rng, i, tier):
    spec = gen_clocked(rng, maxspace=60)
    ops = []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.2:
            ops.append(['timeout', rng.choice(['none', 'inf', 0, 0.0, 1, 2.5, 'frac', 'frac', 1e9, 'over']), rng.randrange(1, 64)])
        elif r < 0.4:
            ops.append(['limit', rng.choice(['none', 'inf', 0, 1, 2, 3, 7, 10**6])])
        elif r < 0.55:
            ops.append(['policy', rng.choice(sut.POLICIES)])
        elif r < 0.59:
            ops.append(['bystander', rng.choice(sut.POLICIES), rng.choice([None, 0, 2.5, 'inf']), rng.choice([None, 0, 1, 4, 'inf']),
                        rng.choice([True, False]), rng.random() < 0.5])
        elif r < 0.63:
            ops.append(['compile', rng.choice([True, False, 0, 1, None, '', 'yes'])])
        elif r < 0.7:
            ops.append(['bad', rng.choice(['GROUPS', 3, None, 0, 'x', ['ORDERED'], 'class', 1.5])])
        elif r < 0.74:
            ops.append(['badnew', rng.choice(['GROUPS', 3, None, 0, 'class'])])
        elif r < 0.78:
            ops.append(['new', rng.choice(sut.POLICIES), rng.choice(['none', 'inf', 0, 2.5, 'frac']), rng.choice(['none', 'inf', 0, 1, 4]),
                        rng.choice([True, False, 0]), rng.randrange(1, 64)])
        elif r < 0.82:
            ops.append(['modelsolver', rng.choice(sut.POLICIES), rng.choice(['none', 'inf', 0, 2.5, 'frac']), rng.choice(['none', 'inf', 0, 1, 4]),
                        rng.choice([True, False, 0]), rng.randrange(1, 64)])
        else:
            ops.append(['solve', rng.choice(['', '', '', 'limit', 'timeout', 'policy', 'all', 'optimize', 'abandon', 'under_way']),
                        rng.choice([1, 1, 2, 5, 30, 'none', 'inf', 0]), rng.choice(['frac', 'frac', 'frac', 'none', 'inf', 'over', 0]), rng.choice([32, rng.randrange(1, 64)])])
    ops.append(['solve', ''])
    return {'spec': spec, 'ops': ops, 'tick': rng.choice([0.25, 1.0]), 'defaults': rng.random() < 0.4}


def probe_compilation(solver, expected, obs):
    """A constraint never compiled before is compiled by a solve exactly if the solver is set to do so, whatever another solver is set to."""
    s = sut.S()
    bystander = s.solver.Solver(compile_constraints=not expected)
    calls = []

    class Spy(s.constraint.ExpressionConstraint):
        def compile(self):
            calls.append(1)
            super().compile()
    model = s.model.Model()
    x, y = model.add_int_variable((0, 1), name='x'), model.add_int_variable((0, 1), name='y')
    spy = Spy(x + y < 2)
    model.add_constraint(spy)
    n = sum(1 for _ in solver.solve(model, limit=None, timeout=None))
    require(n == 3, 'wrong solutions', got=n)
    require((bool(calls) or spy.is_compiled()) == expected, 'the compilation setting is not the one in effect', setting=expected,
            compile_called=len(calls), is_compiled=spy.is_compiled())
    require(bystander.compile_constraints == (not expected), 'the setting of another solver changed', got=bystander.compile_constraints)
    obs.count('compilation_{}_probed'.format('on' if expected else 'off'))


def run_s14(case, obs):
    s = sut.S()
    INF, P = s.utils.INFINITY, s.solver.VarSelectionPolicy
    require([sut.policy(n).name for n in sut.POLICIES] == sut.POLICIES, 'two policies are one')
    new = s.solver.Solver()
    require((new.timeout, new.limit, new.compile_constraints, new.var_selection_policy) == (None, None, True, P.GROUPS),
            'a solver constructed without settings has some')
    spec = case['spec']
    tick = Ticker(case['tick'])
    b = sut.Built(spec, log=tick)
    rm = ref.RefModel(spec)
    at = tick.searching
    sut.collect(s.solver.Solver().solve(b.model), rm.names, cap_of(rm))
    total_time = tick.searching - at

    def number(x, k=1):
        return {'none': None, 'inf': INF, 'frac': total_time * k / 64, 'over': total_time + k}.get(x, x)

    def norm(x):
        return None if x is INF else x
    solver, owner = s.solver.Solver(), None
    own = {'timeout': None, 'limit': None, 'policy': solver.var_selection_policy, 'compile': solver.compile_constraints}
    require(isinstance(own['policy'], P), 'the default policy is not a policy', policy=repr(own['policy']))

    def read():
        x = owner.solver if owner is not None else solver
        return {'timeout': x.timeout, 'limit': x.limit, 'policy': x.var_selection_policy, 'compile': x.compile_constraints}

    def check(what):
        now = read()
        require(now == own and type(now['compile']) is bool and now['policy'] is own['policy'] and type(now['timeout']) is type(own['timeout']),
                'a setting does not read back as set', after=what, settings=repr(now), expected=repr(own))
        obs.count('settings_read')

    def construct(pol, timeout, limit, comp):
        return dict(var_selection_policy=pol, timeout=timeout, limit=limit, compile_constraints=comp)

    def stream(x, kw):
        out = []
        for sol in x.solve(b.model, **kw):
            out.append(sut.as_tuple(sol, rm.names))
            require(len(out) <= cap_of(rm), 'too many solutions')
        st = x.get_stats()
        return out, st.count, st.interrupt
    check('construction')
    changed = 0
    bystanders = []
    for op in case['ops']:
        what = op[0]
        if what == 'timeout':
            v = number(op[1], op[2])
            solver.timeout = v
            own['timeout'] = norm(v)
        elif what == 'limit':
            v = number(op[1])
            solver.limit = v
            own['limit'] = norm(v)
        elif what == 'policy':
            solver.var_selection_policy = own['policy'] = sut.policy(op[1])
        elif what == 'compile':
            solver.compile_constraints = op[1]
            own['compile'] = bool(op[1])
        elif what == 'bystander':
            kw = construct(sut.policy(op[1]), number('none' if op[2] is None else op[2]), number('none' if op[3] is None else op[3]), op[4])
            if op[5]:
                other = s.solver.Solver(**kw)
            else:
                other = s.solver.Solver()
                for k, v in kw.items():
                    setattr(other, k, v)
            require((other.timeout, other.limit, other.var_selection_policy, other.compile_constraints) ==
                    (norm(kw['timeout']), norm(kw['limit']), kw['var_selection_policy'], bool(op[4])), 'another solver does not have the '
                    'settings given', given=repr(kw))
            bystanders.append((other, kw))
            for x, kw in bystanders:
                require(x.limit == norm(kw['limit']) and x.timeout == norm(kw['timeout']) and
                        x.var_selection_policy is kw['var_selection_policy'] and x.compile_constraints == kw['compile_constraints'],
                        'the settings of another solver changed', given=repr(kw))
            obs.count('bystanders')
        elif what in ('bad', 'badnew'):
            v = P if op[1] == 'class' else op[1]
            try:
                if what == 'bad':
                    solver.var_selection_policy = v
                else:
                    s.solver.Solver(var_selection_policy=v)
            except TypeError:
                obs.count('refused')
            else:
                raise Violation('a policy that is none is accepted', given=repr(v))
        elif what in ('new', 'modelsolver'):
            kw = construct(sut.policy(op[1]), number(op[2], op[5]), number(op[3]), op[4])
            if what == 'new':
                solver, owner = s.solver.Solver(**kw), None
            else:
                owner = s.solver.ModelSolver(model=b.model, **kw)
                require(owner.model is b.model, 'a model solver has another model')
                solver = owner.solver
            own = {'timeout': norm(kw['timeout']), 'limit': norm(kw['limit']), 'policy': kw['var_selection_policy'], 'compile': bool(op[4])}
            obs.count('constructed_' + what)
        else:
            how = op[1]
            kw = {}
            if how in ('limit', 'all'):
                kw['limit'] = number(op[2])
            if how in ('timeout', 'all'):
                kw['timeout'] = number(op[3], op[4])
            if how in ('policy', 'all'):
                kw['var_selection_policy'] = P.REVERSED
            if how == 'under_way':
                # settings changed while a solve is under way concern the next one
                if own['policy'] is P.RANDOM:
                    continue
                fresh = s.solver.Solver(**construct(own['policy'], own['timeout'], own['limit'], own['compile']))
                want = stream(fresh, {})
                gen, got = solver.solve(b.model), []
                for sol in gen:
                    got.append(sut.as_tuple(sol, rm.names))
                    require(len(got) <= cap_of(rm), 'too many solutions')
                    if len(got) == min(op[2] if isinstance(op[2], int) else 1, 3):
                        solver.limit, own['limit'] = number('none'), None
                        solver.timeout, own['timeout'] = None, None
                        if op[4] % 3 != 1:
                            solver.limit = own['limit'] = op[4] % 5
                        if op[4] % 3 != 2:
                            solver.timeout = own['timeout'] = [0, total_time / 64, 0.5, 1e9][op[4] % 4]
                        if op[4] % 2:
                            solver.var_selection_policy = own['policy'] = P.REVERSED if own['policy'] is P.ORDERED else P.ORDERED
                            solver.compile_constraints = own['compile'] = not own['compile']
                        obs.count('changed_under_way')
                st = solver.get_stats()
                require((got, st.count, st.interrupt) == want, 'a setting changed while a solve was under way concerns it',
                        got=[got[:5], st.count, st.interrupt], want=[want[0][:5], want[1:]], settings_now=repr(own))
                check(op)
                changed += 1
                continue
            if how == 'optimize':
                for o in solver.optimize(b.model, s.objective.Maximize(sum(b.var.values()) + 0)):
                    pass
                check(op)
                continue
            if how == 'abandon':
                gen = solver.solve(b.model)
                next(gen, None)
                del gen
                check(op)
                continue
            # an option of the call acts like that setting
            fresh = s.solver.Solver(**construct(kw.get('var_selection_policy', own['policy']), kw.get('timeout', own['timeout']),
                                                kw.get('limit', own['limit']), own['compile']))
            one, two = stream(solver, kw), stream(fresh, {})
            pol = kw.get('var_selection_policy', own['policy'])
            if pol is P.RANDOM:
                timed = kw.get('timeout', own['timeout']) is not None
                if not timed:
                    require(one[1:] == two[1:] and len(set(one[0])) == len(one[0]), 'a solver with changed settings behaves unlike a fresh one '
                            'with the same settings', settings=repr(own), changed=one[1:], fresh=two[1:], per_call=repr(kw))
            else:
                require(one == two, 'a solver with changed settings behaves unlike a fresh one with the same settings', settings=repr(own),
                        changed=[one[0][:5], one[1:]], fresh=[two[0][:5], two[1:]], per_call=repr(kw))
            obs.count('streams_compared')
            probe_compilation(solver, own['compile'], obs)
            obs.see('outcome', one)
            if one[2]:
                obs.count('interrupted_' + one[2])
            if owner is not None and not kw:
                three = []
                for sol in owner:
                    three.append(sut.as_tuple(sol, rm.names))
                    require(len(three) <= cap_of(rm), 'too many solutions')
                if pol is not P.RANDOM:
                    require(three == one[0] and owner.get_stats().count == one[1], 'a model solver yields something else than its solver',
                            settings=repr(own), its=three[:5], solver=one[0][:5])
                obs.count('model_solvers_compared')
            if changed:
                obs.nontrivial()
        changed += what in ('timeout', 'limit', 'policy', 'compile', 'new', 'modelsolver')
        check(op)


register(Check(
    'S14', 'histories of 5-15 changes of settings (valid, None, INFINITY, refused ones; by attribute, constructor and model solver) and '
           'solves, with options per call, abandoned, optimizing, changed while under way, under a virtual clock; all settings are read back after each step and every '
           'solve is compared with one of a fresh solver constructed with these settings',
    gen_s14, run_s14, quick=9000, thorough=100000, virtual_clock=True,
    need={'settings_read': 40000, 'streams_compared': 8000, 'refused': 3000, 'interrupted_limit': 800, 'interrupted_timeout': 800,
          'constructed_modelsolver': 800, 'model_solvers_compared': 500, 'compilation_on_probed': 2000, 'compilation_off_probed': 1000,
          'bystanders': 1000, 'changed_under_way': 150}))
