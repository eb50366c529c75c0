"""A11: the applications on models and solvers of the caller; S15: solves in several threads; S16: large models."""
import collections
import itertools
import math
import random
import sys
import threading
import time

from vmon import ref, sut
from vmon.core import Check, HarnessError, Skip, Violation, register, require
from checks import apps
from checks.opt import gen_objective
from checks.solver import any_model, cap_of, names_of

REAL_SLEEP = time.sleep


# ------------------------------------------------------------------ A11
DETERMINISTIC = ['ORDERED', 'REVERSED', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT']
SLOW_ANY_ORDER = {'cryptarithm', 'queens', 'riddle'}


def gen_app(rng, kinds):
    kind = rng.choice(kinds)
    if kind == 'sudoku':
        grid = apps.random_grid(rng)
        for j in list(apps.unavoidable(rng, grid)) + rng.sample(range(81), rng.randint(2, 12)):
            grid[j] = 0
        return [kind, grid]
    if kind == 'nonogram':
        n = rng.randint(2, 4)
        pic = [[rng.randint(0, 1) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.6:      # several pictures
            pic = [[int((r + k) % n == 0) for r in range(n)] for k in range(n)]
        return [kind, [[apps.runs(r) for r in pic], [apps.runs(c) for c in zip(*pic)]]]
    if kind == 'cryptarithm':
        return [kind, rng.choice(['A+B==C', 'AB<C*D', 'A*B==CA', 'AB==C*D', 'A-B==2', 'A1+B==2C', 'A+A==BC', 'AB+C==BA'])]
    if kind == 'graph_labeling':
        n = rng.randint(1, 4)
        return [kind, [list(range(n)), [list(e) for e in itertools.combinations(range(n), 2) if rng.random() < 0.5],
                       ['red', 'blue', 'green'][:rng.randint(2, 3)]]]
    if kind == 'map':
        return [kind, [rng.choice([['ab'], ['aab', 'cbb'], ['a b', 'a b'], ['aa', 'bc']]), ['red', 'blue', 'green']]]
    if kind == 'queens':
        return [kind, rng.choice([1, 4, 4, 5])]
    if kind == 'riddle':
        return [kind, None]
    n, d = rng.randint(1, 5), rng.randint(0, 2)
    weights = [[rng.randint(0, 6) for _ in range(d)] for _ in range(n)]
    return [kind, [[rng.randint(1, 20) for _ in range(n)], [rng.randint(0, sum(w[k] for w in weights)) for k in range(d)], weights]]


def build_app(app, **kw):
    kind, p = app
    if kind == 'sudoku':
        return apps.mod('sudoku').SudokuSolver([p[9 * r:9 * r + 9] for r in range(9)], **kw)
    if kind == 'nonogram':
        return apps.mod('nonogram').NonogramSolver({'rows': p[0], 'columns': p[1]}, **kw)
    if kind == 'cryptarithm':
        return apps.mod('cryptarithm').CryptarithmSolver(p, **kw)
    if kind == 'graph_labeling':
        import networkx
        g = networkx.Graph()
        g.add_nodes_from(p[0])
        g.add_edges_from(p[1])
        return apps.mod('graph_labeling').GraphLabelingSolver(g, p[2], **kw)
    if kind == 'map':
        return apps.mod('tool.ascii_map_coloring').AsciiMapColoringSolver(p[0], p[1], **kw)
    if kind == 'queens':
        return apps.mod('tool.queens').QueensSolver(p, **kw)
    if kind == 'riddle':
        return apps.mod('tool.einstein_riddle').EinsteinRiddleSolver(**kw)
    return apps.mod('knapsack').KnapsackOptimizer(p[0], p[1], p[2], **kw)


def frozen(x):
    if isinstance(x, dict):
        return tuple(sorted((repr(k), frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    return x


# resemble the names the front ends give their variables, without being among them for the sizes generated
NEAR_NAMES = ['r', 'rest', 'r_x', 'r_90', 'r_90_90x', 'c', 'c_x', 'c_90_', 'col', 'q', 'q_90', 'queen', 'n', 'n_x', 'i', 'i_90', 'item', 'aA', 'diag', 'x',
              'x_90', 'v', 'var', 's_9_90', 's', 'r__0_0', 'own', 'row_0', 'owner_x', 'Blend', 'k', 'k_0', 'w_0', 'Z0', 'value', 'self']


def gen_a11(rng, i, tier):
    kinds = ['sudoku', 'nonogram', 'cryptarithm', 'graph_labeling', 'map', 'queens', 'knapsack']
    app = gen_app(rng, kinds + (['riddle'] if rng.random() < 0.2 else []))
    own = None
    if rng.random() < 0.65:
        n = rng.randint(0, 2)
        names = rng.sample(NEAR_NAMES, 2) if rng.random() < 0.4 else ['own0', 'own1']
        own = {'vars': [[names[k], rng.sample(range(-3, 9), rng.randint(1, 3))] for k in range(n)],
               'param': rng.random() < 0.3, 'ne': n == 2 and rng.random() < 0.5, 'even': n and rng.random() < 0.3,
               'false': rng.random() < 0.06}
    other = None
    if own is not None and rng.random() < 0.25:
        light = {'cryptarithm': ['graph_labeling'], 'graph_labeling': ['cryptarithm']}.get(app[0], ['graph_labeling', 'cryptarithm'])
        if app[0] == 'map':
            light = ['cryptarithm']
        other = gen_app(rng, light)
        if other[0] == 'cryptarithm':
            other = ['cryptarithm', rng.choice(['A-B==2', 'A+A==B2', 'A*B==27'])]
    solver = None
    if rng.random() < 0.65:
        solver = [rng.choice(DETERMINISTIC), rng.random() < 0.6, rng.choice([None, None, None, 1, 2, 5])]
    return {'app': app, 'own': own, 'other': other, 'solver': solver, 'added': rng.choice([0, 1, 1, 1, 2]), 'pick': rng.randrange(10**9),
            'before': rng.random() < 0.5, 'repeat': rng.choice([1, 1, 2])}


def added_constraints(rng, n, names, raw, model):
    """Constraints over variables of a model -> (satisfy constraint or expression, predicate over raw solutions)."""
    s = sut.S()
    out = []
    for _ in range(n):
        if not names:
            break
        like = rng.choice(raw) if raw and rng.random() < 0.8 else None
        kind = rng.choice(['eq', 'ne', 'le', 'pair', 'ad', 'user', 'mod'])
        a, b = rng.choice(names), rng.choice(names)
        va = model.get_variable(a)
        vb = model.get_variable(b)
        value = like[a] if like else rng.randint(0, 3)
        if kind == 'eq':
            out.append((va == value, lambda r, a=a, v=value: r[a] == v))
        elif kind == 'ne':
            out.append((va != value, lambda r, a=a, v=value: r[a] != v))
        elif kind == 'le':
            out.append((va <= value, lambda r, a=a, v=value: r[a] <= v))
        elif kind == 'mod':
            out.append(((va + 3 * vb) % 2 == 0, lambda r, a=a, b=b: (r[a] + 3 * r[b]) % 2 == 0))
        elif kind == 'pair':
            out.append((va <= vb, lambda r, a=a, b=b: r[a] <= r[b]))
        elif kind == 'ad':
            if a == b:
                continue
            out.append((s.constraint.AllDifferentConstraint([a, b]), lambda r, a=a, b=b: r[a] != r[b]))
        else:
            out.append((sut.user_constraint_class()([a, b], lambda r, a=a, b=b: (r[a] * 2 + r[b]) % 3 != 1),
                        lambda r, a=a, b=b: (r[a] * 2 + r[b]) % 3 != 1))
    return out


def run_a11(case, obs):
    s = sut.S()
    P, INF = s.solver.VarSelectionPolicy, apps.infinity()
    kind = case['app'][0]
    rng = random.Random(case['pick'])
    knap = kind == 'knapsack'

    # the application alone: its items, and the solutions of its model they stand for
    plain = build_app(case['app']) if knap else build_app(case['app'], limit=INF)
    names = [n for n, info in plain.model.variables().items() if info.domain is not None]
    raw = []
    for r in s.solver.Solver(var_selection_policy=plain.solver.var_selection_policy).solve(plain.model):
        raw.append(dict(r))
        if len(raw) > 1200:
            raise Skip()
    if knap:
        require(len(names) == len(case['app'][1][0]), 'the model of a knapsack has other variables than its items', names=names)
        items = raw
    else:
        items = [frozen(x) for x in itertools.islice(plain, len(raw) + 1)]
        require(len(items) == len(raw), 'as many items as solutions of the model', items=len(items), raw=len(raw), kind=kind)

    def item(x):
        # the solutions of a cryptarithm are those of its model
        return frozen({n: x[n] for n in names} if kind == 'cryptarithm' else x)

    def own_model():
        m = s.model.Model()
        own = case['own']
        v = [m.add_int_variable(d, name=n) for n, d in own['vars']]
        if own['param']:
            m.add_parameter(3, name='ownp')
        if own['ne']:
            m.add_constraint(v[0] != v[1])
        if own['even']:
            m.add_constraint(v[0] % 2 == 0)
        if own['false']:
            m.add_constraint(False)
        return m
    factor = 1
    kw = {}
    if case['own'] is not None:
        own = case['own']
        combos = [t for t in itertools.product(*[d for _, d in own['vars']])
                  if not (own['ne'] and t[0] == t[1]) and not (own['even'] and t[0] % 2)]
        factor = 0 if own['false'] else len(combos)
        lone = build_app(case['other'], limit=INF) if case['other'] else None
        taken = set(names) | set(lone.model.variables() if lone else ())
        own = case['own'] = dict(own, vars=[[n + '_own' if n in taken else n, d] for n, d in own['vars']])
        obs.count('own_names_near', sum(n in NEAR_NAMES for n, _ in own['vars']))
        kw['model'] = own_model()
        if case['other']:
            # another application on the same model first
            factor *= sum(1 for _ in lone)
            build_app(case['other'], model=kw['model'])
            obs.count('two_applications_on_one_model')
    limit = None
    if case['solver'] is not None:
        policy, comp, limit = case['solver']
        if kind in SLOW_ANY_ORDER or kind == 'sudoku':
            policy = plain.solver.var_selection_policy.name
        kw['solver'] = s.solver.Solver(var_selection_policy=sut.policy(policy), compile_constraints=comp, limit=limit)
    elif not knap:
        kw['limit'] = INF
    if factor * len(raw) > 4000:
        raise Skip()
    model_given, solver_given = kw.get('model'), kw.get('solver')
    app = build_app(case['app'], **kw)
    if model_given is not None:
        require(app.model is model_given, 'the application does not use the model it is given', kind=kind)
        obs.count('model_given')
    if solver_given is not None:
        require(app.solver is solver_given, 'the application does not use the solver it is given', kind=kind)
        obs.count('solver_given')
    listed = [n for n, info in app.model.variables().items() if info.domain is not None]
    require(set(names) <= set(listed), 'the variables of the application are not in its model', kind=kind)

    def observe(keep, when):
        total = factor * len(keep)
        if knap:
            values, caps, weights = case['app'][1]
            result = app()
            best = None
            for r in keep:
                sel = tuple(r[n] for n in names)
                v = sum(x * y for x, y in zip(sel, values))
                best = v if best is None or v > best else best
            if not total:
                require(result.solution is None, 'a selection although none is allowed', when=when, got=repr(result))
                return
            if limit is None:
                require(result.solution is not None, 'no selection although there is one', when=when)
                require(result.is_optimal, 'a complete optimization is not called optimal', when=when)
            if result.solution is not None:
                allowed = {tuple(r[n] for n in names) for r in keep}
                require(tuple(result.solution) in allowed, 'the selection breaks a constraint of the model', when=when,
                        got=repr(result))
                require(result.value == sum(x * y for x, y in zip(result.solution, values)), 'wrong value', when=when)
                if result.is_optimal:
                    require(result.value == best, 'not the best selection among those the model allows', when=when,
                            got=repr(result), best=best)
            obs.count('knapsacks_judged')
            return
        want = collections.Counter()
        for r, x in zip(raw, items):
            if any(r is k for k in keep):
                want[x] += factor
        want = +want
        got = collections.Counter()
        n = 0
        for x in app:
            got[item(x)] += 1
            n += 1
            if case['pick'] % 2:
                apps.scramble(x)        # it belongs to the consumer
                obs.count('items_changed_by_the_consumer')
            require(n <= total, 'more items than the model has solutions', when=when, kind=kind, total=total)
        expect = total if limit is None else min(limit, total)
        require(not got - want, 'an item that the constraints of the model exclude', when=when, kind=kind,
                extra=list((got - want).items())[:2])
        require(n == expect, 'items are missing', when=when, kind=kind, got=n, want=expect, total=total, limit=limit)
        st = app.get_stats()
        require(st.count == n and st == app.solver.get_stats(), 'the statistics are not those of the solver', when=when, stats=repr(st), n=n)
        require((st.interrupt == 'limit') == (limit is not None and n == limit), 'wrong interruption', when=when, stats=repr(st), n=n)
        obs.count('items_judged', n)
        if n > 1:
            obs.nontrivial()
    if case['before']:
        observe(raw, 'before the addition')
        obs.count('solved_before_addition')
    keep = raw
    for c, pred in added_constraints(rng, case['added'], names, raw, app.model):
        app.model.add_constraint(c)
        keep = [r for r in keep if pred(r)]
        obs.count('constraints_added')
    for _ in range(case['repeat']):
        observe(keep, 'after the addition')
    if case['added'] and len(keep) < len(raw):
        obs.count('additions_that_restrict')
    if factor > 1:
        obs.count('own_variables_multiply')
    obs.count('app_' + kind)
    if knap:
        obs.nontrivial()


register(Check(
    'A11', 'the eight front ends on models that already hold variables, parameters, constraints or another application, with solvers '
           'of the caller, and with constraints added to their model afterwards, solved before and after; the items of the plain '
           'application, matched with the solutions of its model, say which items must come how often; non-trivial: several items',
    gen_a11, run_a11, quick=3500, thorough=60000, case_wall=60,
    need={'items_judged': 20000, 'constraints_added': 2500, 'additions_that_restrict': 800, 'model_given': 1500, 'solver_given': 1500,
          'own_variables_multiply': 500, 'two_applications_on_one_model': 300, 'knapsacks_judged': 400, 'solved_before_addition': 900}))


# ------------------------------------------------------------------ S15
def gen_s15(rng, i, tier):
    jobs = []
    shared = any_model(rng, maxspace=120, maxvars=4) if rng.random() < 0.5 else None
    for k in range(rng.randint(2, 6)):
        spec = any_model(rng, maxspace=120, maxvars=5)
        if shared is not None and rng.random() < 0.6:
            # same names, other domains: what crosses over is then plausible to the other thread
            spec = {'vars': [[n, sorted(d)[:max(1, len(d) - rng.randint(0, 2))] if kd != 'bool' else d, kd if kd == 'bool' else 'list']
                             for n, d, kd in shared['vars']],
                    'params': [[n, v + rng.randint(0, 2)] for n, v in shared['params']], 'cons': shared['cons']}
        job = {'spec': spec, 'cfg': sut.gen_cfg(rng), 'how': rng.choice(['solve', 'solve', 'solve', 'optimize', 'limit', 'evaluate']),
               'times': rng.randint(1, 3)}
        if job['how'] == 'optimize':
            job['objective'], job['mm'] = gen_objective(rng, spec), rng.choice('mM')
        jobs.append(job)
    return {'jobs': jobs, 'sleep': rng.choice([0, 0.1, 0.5]), 'build_inside': rng.random() < 0.6, 'seed': rng.randrange(10**9)}


def run_s15(case, obs):
    s = sut.S()
    rms = [ref.RefModel(j['spec']) for j in case['jobs']]
    wants = [rm.solutions() for rm in rms]
    alone = []
    for j, rm in zip(case['jobs'], rms):
        alone.append(None)
        if j['how'] == 'optimize' and j['cfg'][0] != 'RANDOM':
            b = sut.Built(j['spec'])
            alone[-1] = sut.collect_opt(optimization(j, b), rm.names, cap_of(rm))
    go = threading.Barrier(len(case['jobs']))
    trace, failures = [], []

    def logger(k):
        rng = random.Random('{}:{}'.format(case['seed'], k))

        def log(con, sub):
            trace.append(k)
            if rng.random() < case['sleep']:
                REAL_SLEEP(0)
        return log

    def work(k):
        j, rm = case['jobs'][k], rms[k]
        try:
            b = early[k] or sut.Built(j['spec'], log=logger(k))
            go.wait(60)
            for _ in range(j['times']):
                trace.append(k)
                if j['how'] in ('solve', 'limit'):
                    kw = {'limit': 3} if j['how'] == 'limit' else {}
                    got = []
                    for sol in sut.make_solver(j['cfg']).solve(b.model, **kw):
                        trace.append(k)
                        got.append(sut.as_tuple(sol, rm.names))
                        require(len(got) <= cap_of(rm), 'too many solutions')
                    want = wants[k]
                    require(len(set(got)) == len(got) and set(got) <= set(want) and
                            len(got) == (min(3, len(want)) if j['how'] == 'limit' else len(want)),
                            'a solve in one of several threads goes wrong', got=got[:4], want=want[:4], counts=[len(got), len(want)],
                            job=j)
                elif j['how'] == 'optimize':
                    got = []
                    for o in optimization(j, b):
                        trace.append(k)
                        got.append(sut.as_tuple(o.solution, rm.names))
                        require(len(got) <= cap_of(rm), 'too many solutions')
                    require(alone[k] is None or got == alone[k], 'an optimization in one of several threads goes wrong',
                            got=got[:4], alone=alone[k] and alone[k][:4], job=j)
                    require(set(got) <= set(wants[k]) and bool(got) == bool(wants[k]), 'wrong solutions of an optimization', got=got[:4])
                else:
                    # the constraints alone, compiled and not
                    for c in b.model.constraints():
                        if j['cfg'][1]:
                            c.compile()
                    for t in itertools.islice(itertools.product(*rm.domains), 150):
                        env = dict(zip(rm.names, t))
                        ok = all(not c.unsatisfied(env) for c in b.model.constraints()) and b.model.solvable()
                        trace.append(k)
                        require(ok == rm.ok(env), 'constraints evaluated in one of several threads answer wrongly', env=env, job=j, got=ok)
        except BaseException as exc:
            failures.append((k, exc))

    early = [None if case['build_inside'] else sut.Built(j['spec'], log=logger(k)) for k, j in enumerate(case['jobs'])]
    threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(case['jobs']))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    real = [f for f in failures if not isinstance(f[1], threading.BrokenBarrierError)]
    for k, exc in real:
        raise exc
    if failures:
        raise HarnessError('the threads did not start together')
    switches = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
    obs.count('threads', len(threads))
    obs.count('thread_switches_seen', switches)
    obs.count('events', len(trace))
    obs.see('interleaving', trace)
    if switches > len(threads):
        obs.nontrivial()


def optimization(j, b):
    s = sut.S()
    kind = s.objective.Minimize if j['mm'] == 'm' else s.objective.Maximize
    return sut.make_solver(j['cfg']).optimize(b.model, kind(sut.build_expr(j['objective'], b.var, b.par)))


register(Check(
    'S15', 'two to six threads at a switch interval of 1 microsecond, each building, solving, optimizing or evaluating a model of its own '
           '(many with the names of the others), with the interpreter lock given up inside user-defined constraints; every thread '
           'compares what it gets with enumeration and with the same work done alone; non-trivial: more switches between '
           'recorded events than threads',
    gen_s15, run_s15, quick=3500, thorough=60000, case_wall=60,
    need={'threads': 9000, 'thread_switches_seen': 4000}))


# ------------------------------------------------------------------ S16
def gen_s16(rng, i, tier):
    kind = ['chain', 'chain', 'domain', 'wide_sum', 'many_constraints', 'free', 'alldiff', 'shift', 'objective', 'deep', 'product'][i % 11]
    policy = rng.choice(['ORDERED', 'REVERSED', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT'])
    n = {'chain': rng.choice([50, 300, 1050, 1200]), 'domain': rng.choice([1000, 5000, 30000, 70000]),
         'wide_sum': rng.choice([20, 70, 130, 260, 300, 520, 700]), 'many_constraints': rng.choice([200, 1500, 4000]),
         'free': rng.choice([64, 300, 1100]), 'alldiff': rng.choice([30, 100, 260, 400, 520, 700]), 'shift': rng.choice([20, 60, 110, 130]),
         'objective': rng.choice([20, 60, 130, 260, 520]), 'deep': rng.choice([40, 90, 150, 230]), 'product': rng.choice([10, 40, 90, 200, 400])}[kind]
    n += rng.randint(0, 7)
    return {'kind': kind, 'n': n, 'd': rng.randint(1, 3), 'cfg': [policy, rng.random() < 0.6], 'shuffle': rng.randrange(10**9),
            'limit': rng.choice([None, None, 1, 2, 3])}


def run_s16(case, obs):
    s = sut.S()
    rng = random.Random(case['shuffle'])
    n, d, kind = case['n'], case['d'], case['kind']
    m = s.model.Model()
    label = rng.choice(['x{}', 'x{:05d}', 'n_{}', 'k{}_0'])
    add = lambda k, dom: m.add_int_variable(dom, name=label.format(k))
    names, want, objective = None, None, None
    free = False
    if kind == 'chain':
        v = [add(k, range(d)) for k in range(n)]
        for a, b in zip(v, v[1:]):
            m.add_constraint(a == b)
        want = {(t,) * n for t in range(d)}
        nv = n
    elif kind == 'domain':
        dom = list(range(-5, n - 5))
        rng.shuffle(dom)
        r = rng.randrange(n // 3)
        v = [add(0, dom), add(1, range(d))]
        m.add_constraint(v[0] * 3 == 3 * r + 0)
        m.add_constraint(v[0] + v[1] <= r + 1)
        want = {(r, t) for t in range(d) if t <= 1}
        if rng.random() < 0.5:
            k = rng.randint(50, 300)
            v.append(add(2, range(n)))
            m.add_constraint(v[2] % (n // k) == 0)
            want = {t + (u,) for t in want for u in range(0, n, n // k)}
        nv = len(v)
    elif kind in ('wide_sum', 'objective'):
        loose = set(rng.sample(range(n), 5))
        dom = [[0, 1] if k in loose else [rng.choice([1, 2, -1])] for k in range(n)]
        v = [add(k, dom[k]) for k in range(n)]
        w = [rng.choice([1, 1, 2, 3, -1, 5]) for _ in range(n)]
        total = sum(x * y for x, y in zip(v, w))
        all_ = set(itertools.product(*dom))
        value = lambda t: sum(a * b for a, b in zip(t, w))
        if kind == 'wide_sum':
            aim = value(rng.choice(sorted(all_)))
            m.add_constraint(total == aim)
            want = {t for t in all_ if value(t) == aim}
        else:
            m.add_constraint(total >= min(map(value, all_)))
            want = all_
            objective = [total, value]
        nv = n
    elif kind == 'many_constraints':
        wide = 3 if n < 1000 else 5
        v = [add(k, range(-wide, wide + 1)) for k in range(3)]
        bad = {tuple(rng.randint(-wide, wide) for _ in range(3)) for _ in range(n)}
        for a, b, c in bad:
            m.add_constraint(((v[0] - a) * (v[0] - a) + (v[1] - b) * (v[1] - b) + (v[2] - c) * (v[2] - c)) > 0)
        want = set(itertools.product(range(-wide, wide + 1), repeat=3)) - bad
        nv = 3
    elif kind == 'free':
        v = [add(k, range(2)) for k in range(n)]
        for a, b in zip(v[::7], v[1::7]):
            m.add_constraint(a + b <= 2)
        free, nv = True, n
    elif kind == 'alldiff':
        vals = list(range(n))
        rng.shuffle(vals)
        v = [add(k, [vals[k]]) for k in range(n)]
        same = rng.random() < 0.4
        if same:
            v.append(m.add_int_variable([vals[rng.randrange(n)], n + 5][:rng.randint(1, 2)], name='extra'))
            want = {tuple(vals) + (n + 5,)} if len(m.get_var_domain(v[-1])) == 2 else set()
        else:
            want = {tuple(vals)}
        m.add_all_different_constraint(v)
        nv = len(v)
    elif kind == 'shift':
        # x_k in {k, k+1}, all different: some threshold splits the two choices
        v = [add(k, [k, k + 1]) for k in range(n)]
        m.add_all_different_constraint(v)
        want = {tuple(k + (k >= t) for k in range(n)) for t in range(n + 1)}
        nv = n
    elif kind == 'deep':
        v = [add(k, range(3)) for k in range(3)]
        e, f = v[0], (lambda t: t[0])
        steps = []
        for k in range(n):
            steps.append((rng.choice(['sub', 'add', 'neg', 'mod', 'mul']), rng.randrange(3), rng.randint(2, 9)))
        for op, k, c in steps:
            e = {'sub': lambda: e - v[k], 'add': lambda: c + e % 1000, 'neg': lambda: -e, 'mod': lambda: e % (c * 101),
                 'mul': lambda: (e % 50) * v[k]}[op]()

        def value(t):
            x = t[0]
            for op, k, c in steps:
                x = x - t[k] if op == 'sub' else c + x % 1000 if op == 'add' else -x if op == 'neg' else x % (c * 101) if op == 'mod' \
                    else (x % 50) * t[k]
            return x
        full = sorted(itertools.product(range(3), repeat=3))
        aim = value(rng.choice(full))
        m.add_constraint(e == aim)
        want = {t for t in full if value(t) == aim}
        nv = 3
    else:
        dom = [[rng.choice([1, 2, 3])] for _ in range(n)]
        for k in rng.sample(range(n), 5):
            dom[k] = [1, 2]
        v = [add(k, dom[k]) for k in range(n)]
        e = v[0]
        for x in v[1:]:
            e = e * x
        all_ = sorted(itertools.product(*dom))
        aim = math.prod(rng.choice(all_))
        m.add_constraint(e == aim)
        want = {t for t in all_ if math.prod(t) == aim}
        nv = n
    names = [x.name for x in v]
    solver = sut.make_solver(case['cfg'])
    limit = case['limit']
    if free:
        limit = limit or 4
    if objective is not None:
        best = max(map(objective[1], want))
        o = solver.optimal_solution(m, s.objective.Maximize(objective[0]))
        require(o.is_optimal and o.solution is not None, 'a complete optimization of a large model is not optimal', n=n, got=repr(o)[:300])
        t = sut.as_tuple(o.solution, names)
        require(t in want and objective[1](t) == best, 'wrong optimum of a large model', n=n, best=best, got=objective[1](t))
        obs.count('optima')
    got = []
    for sol in solver.solve(m, limit=limit):
        got.append(sut.as_tuple(sol, names))
        require(free or len(got) <= len(want), 'too many solutions of a large model', kind=kind, n=n)
    require(len(set(got)) == len(got), 'a solution is repeated', kind=kind, n=n)
    if free:
        require(len(got) == limit and all(x in (0, 1) for t in got for x in t), 'wrong solutions of a large model', kind=kind, n=n, got=len(got))
    else:
        total = len(want) if limit is None else min(limit, len(want))
        require(set(got) <= want, 'a solution of a large model violates a constraint', kind=kind, n=n, got=len(got))
        require(len(got) == total, 'solutions of a large model are missing', kind=kind, n=n, got=len(got), want=total)
    st = solver.get_stats()
    require(st.count == len(got), 'wrong count', stats=repr(st), n=len(got))
    obs.count('kind_' + kind)
    obs.count('solutions', len(got))
    obs.count('variables', nv)
    if nv > 1000:
        obs.count('more_than_1000_variables')
    obs.peak('variables', nv)
    obs.nontrivial()


register(Check(
    'S16', 'models of up to 1 200 variables, domains of 70 000 values, 4 000 constraints, sums and products of 300 terms, formulas 230 '
           'operators deep, all-different constraints over 700 variables, whose solutions are known in closed form, solved, limited and optimized under '
           'every deterministic policy',
    gen_s16, run_s16, quick=1100, thorough=15000, case_wall=60,
    need={'more_than_1000_variables': 80, 'optima': 60, 'solutions': 5000, 'kind_deep': 60, 'kind_shift': 60}))
