"""O01..O05: optimization."""
import decimal
import fractions
import itertools

from vmon import ref, sut
from vmon.clock import CLOCK
from vmon.core import Check, HarnessError, Skip, Violation, register, require
from checks.solver import any_model, cap_of, gen_clocked, names_of, snapshot_model, Ticker, DETERMINISTIC


def gen_objective(rng, spec):
    names = names_of(spec)
    pn = [p[0] for p in spec['params']]
    r = rng.random()
    if r < 0.2 and names:
        f = ['v', rng.choice(names)]
        r2 = rng.random()
        if r2 < 0.25:
            f = ['neg', f]
        elif r2 < 0.45:
            f = ['mod', f, ['c', rng.choice([2, 3, 5])]]
        elif r2 < 0.6:
            f = ['abs', ['sub', f, ['c', rng.choice([0, 1, 2, -1])]]]
        return f
    if r < 0.27:
        return rng.choice([['C', rng.choice([0, 5, -3])], ['p', pn[0]] if pn else ['C', 1], ['neg', ['C', 2]]])
    if r < 0.6 and names:
        f = None
        for n in rng.sample(names, rng.randint(1, len(names))):
            co = rng.choice([1, 1, 2, 3, -1, -2, 5])
            t = ['v', n] if co == 1 else ['mul', ['v', n], ['c', co]]
            f = t if f is None else [rng.choice(['add', 'add', 'sub']), f, t]
        return f
    if r < 0.68 and len(names) > 1:
        a, b = rng.sample(names, 2)
        return rng.choice([['mul', ['v', a], ['v', b]], ['or', ['v', a], ['v', b]], ['and', ['v', a], ['v', b]],
                           ['eq', ['v', a], ['v', b]], ['abs', ['sub', ['v', a], ['v', b]]], ['not', ['v', a]]])
    return ref.FormulaGen(rng, names, pn, total=True).any(rng.choice([2, 3]))


def gen_opt_model(rng, maxspace=500, **kw):
    spec = any_model(rng, maxspace=maxspace, maxvars=5, **kw)
    for v in spec['vars']:
        if v[2] in ('list', 'tuple', 'gen', 'iter'):
            r = rng.random()
            if r < 0.35:
                v[1].sort(reverse=True)
            elif r < 0.6:
                rng.shuffle(v[1])
    if rng.random() < 0.02:
        spec = {'vars': [], 'params': [['par0', 2]], 'cons': []}
    return spec


def make_objective(mm, f, b):
    s = sut.S()
    return (s.objective.Minimize if mm == 'm' else s.objective.Maximize)(sut.build_expr(f, b.var, b.par))


def value(f, names, t, par):
    return ref.ev(f, dict(zip(names, t)), par)


def better(mm, a, b):
    return a < b if mm == 'm' else a > b


def chain_cap(rm):
    return rm.space() + 2


# ------------------------------------------------------------------ O01
# objectives with values of other numeric types: those infinite or without a literal form have to bound the search as well
def number(code):
    kind, n, d = code
    return {'int': lambda: n, 'frac': lambda: fractions.Fraction(n, d), 'dec': lambda: decimal.Decimal(n) / 10 ** d, 'float': lambda: n / d,
            'inf': lambda: float('inf') if n >= 0 else float('-inf')}[kind]()


def gen_numbers(rng):
    kinds = rng.choice([['frac'], ['frac', 'int'], ['dec'], ['dec', 'int'], ['float', 'inf', 'int'], ['inf', 'int'], ['frac', 'inf', 'float']])
    sign = rng.choice([1, -1])

    def domain():
        dom = []
        for _ in range(rng.randint(1, 7)):
            k = rng.choice(kinds)
            code = [k, sign if k == 'inf' else rng.randint(-9, 9), rng.randint(1, 7)]
            if number(code) not in [number(c) for c in dom]:
                dom.append(code)
        return dom
    codes = [domain(), domain()]
    return {'numbers': codes, 'cfg': sut.gen_cfg(rng), 'form': rng.choice(['x', 'y', 'neg', 'add', 'twice', 'const']),
            'mm': rng.choice('mM'), 'rule': rng.choice(['none', 'ne', 'lt', 'bound']), 'at': rng.choice(codes[0])}


def run_numbers(case, obs):
    s = sut.S()
    doms = [[number(c) for c in d] for d in case['numbers']]
    at = number(case['at'])
    m = s.model.Model()
    x, y = (m.add_int_variable(d, name=n) for d, n in zip(doms, 'xy'))
    rules = {'none': (None, lambda a, b: True), 'ne': (x != y, lambda a, b: a != b), 'lt': (x <= y, lambda a, b: a <= b),
             'bound': (y <= s.expression.Const(at), lambda a, b: b <= at)}
    con, keep = rules[case['rule']]
    if con is not None:
        m.add_constraint(con)
    expr, val = {'x': lambda: (+x, lambda a, b: a), 'y': lambda: (+y, lambda a, b: b), 'neg': lambda: (-x, lambda a, b: -a),
                 'add': lambda: (x + y, lambda a, b: a + b), 'twice': lambda: (2 * x + y, lambda a, b: 2 * a + b),
                 'const': lambda: (s.expression.Const(at) + x, lambda a, b: at + a)}[case['form']]()
    want = [(a, b) for a in doms[0] for b in doms[1] if keep(a, b)]
    objective = (s.objective.Minimize if case['mm'] == 'm' else s.objective.Maximize)(expr)
    got = []
    for o in sut.make_solver(case['cfg']).optimize(m, objective):
        got.append(val(o.solution['x'], o.solution['y']))
        require((o.solution['x'], o.solution['y']) in want, 'not a solution', case=case)
        require(len(got) < 2 or better(case['mm'], got[-1], got[-2]), 'a solution of an optimization does not improve', values=got[-2:], case=case)
    best = (min if case['mm'] == 'm' else max)([val(a, b) for a, b in want], default=None)
    require((got[-1] if got else None) == best, 'an optimization ends before the best value', last=got[-1:], best=best, case=case)
    res = sut.make_solver(case['cfg']).optimal_solution(m, objective)
    if want:
        require(res.is_optimal and val(res.solution['x'], res.solution['y']) == best, 'the optimum is not the best', best=best, case=case)
    else:
        require(res.solution is None and not res.is_optimal, 'an optimum without a solution', case=case)
    obs.count('other_numbers')
    if len(got) > 1:
        obs.count('other_numbers_improving')
        obs.nontrivial()


def gen_o01(rng, i, tier):
    if rng.random() < 0.04:
        return gen_numbers(rng)
    spec = gen_opt_model(rng, 600)
    if rng.random() < 0.03:
        # objective values next to one another and too large for a float
        base = rng.choice([2 ** 53, 2 ** 54, 10 ** 17, 2 ** 63, -2 ** 53 - 6, 10 ** 30])
        v = rng.choice(spec['vars']) if spec['vars'] else None
        if v and v[2] in ('list', 'tuple', 'gen', 'iter') and len(v[1]) > 1:
            v[1][:] = [base + d for d in rng.sample(range(-2, 7), min(len(v[1]), 9))]
            return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'objective': rng.choice([['v', v[0]], ['neg', ['v', v[0]]], ['add', ['v', v[0]], ['c', 1]]]),
                    'mm': rng.choice('mM'), 'again': rng.random() < 0.3, 'how': rng.choice(['one', 'one', 'list', 'percall'])}
    if rng.random() < 0.03:
        # objective values that differ by very little
        base, step = rng.choice([(0, 40), (1, 40), (1, 30), (-3, 45), (1024, 30), (0, 200), (0.5, 25)])
        v = rng.choice(spec['vars']) if spec['vars'] else None
        if v and v[2] in ('list', 'tuple', 'gen', 'iter') and len(v[1]) > 1:
            v[1][:] = [base + d * 0.5 ** step for d in rng.sample(range(-2, 7), min(len(v[1]), 9))]
            return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'objective': rng.choice([['v', v[0]], ['neg', ['v', v[0]]]]),
                    'mm': rng.choice('mM'), 'again': rng.random() < 0.3, 'how': rng.choice(['one', 'one', 'list', 'percall'])}
    return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'objective': gen_objective(rng, spec), 'mm': rng.choice('mM'),
            'again': rng.random() < 0.3, 'how': rng.choice(['one', 'one', 'list', 'percall'])}


def run_o01(case, obs):
    if 'numbers' in case:
        return run_numbers(case, obs)
    s = sut.S()
    spec, f, mm = case['spec'], case['objective'], case['mm']
    rm = ref.RefModel(spec)
    par = rm.par
    want = rm.solutions()
    b = sut.Built(spec)
    obj = make_objective(mm, f, b)
    solver = sut.make_solver(case['cfg'])
    for _ in range(2 if case['again'] else 1):
        if case['how'] == 'list':
            res = solver.optimal_solution(b.model, [obj])
        elif case['how'] == 'percall':
            res = s.solver.Solver(compile_constraints=case['cfg'][1]).optimal_solution(
                b.model, obj, var_selection_policy=sut.policy(case['cfg'][0]))
        else:
            res = solver.optimal_solution(b.model, obj)
        obs.count('optimizations')
        if not want:
            obs.count('without_solution')
            require(res.solution is None and not res.is_optimal, 'an optimum of a model without solutions',
                    result=repr(res))
            continue
        require(res.solution is not None, 'no optimum although there are solutions', objective=f, kind=mm,
                cfg=case['cfg'], solutions=want[:3])
        t = sut.as_tuple(res.solution, rm.names)
        require(t in set(want), 'the optimum is not a solution of the model', got=t, cfg=case['cfg'])
        vals = [value(f, rm.names, w, par) for w in want]
        best = min(vals) if mm == 'm' else max(vals)
        got = value(f, rm.names, t, par)
        require(got == best, 'the solution reported optimal is not', objective=f, kind=mm, cfg=case['cfg'],
                value=got, best=best, solution=t, better=[w for w, v in zip(want, vals) if v == best][:2])
        require(bool(res.is_optimal), 'a proven optimum is not reported as optimal', objective=f, cfg=case['cfg'])
        require(obj.evaluate(res.solution) == best, 'Objective.evaluate gives another value')
        obs.count('optima_checked')
        if len(set(vals)) > 1:
            obs.nontrivial()
            obs.count('several_objective_values')
        obs.count('objective_variables_{}'.format(min(3, len(ref.variables(f)))))


register(Check(
    'O01', 'random and structured models (spaces up to 600, shuffled and descending domains), objectives over no, one and '
           'several variables (linear, //, %, abs, logic, parameters), Minimize and Maximize, every configuration, judged '
           'by enumeration; non-trivial: the solutions have different objective values',
    gen_o01, run_o01, quick=15000, thorough=250000,
    need={'optima_checked': 3000, 'several_objective_values': 2000, 'objective_variables_0': 150,
          'objective_variables_1': 600, 'objective_variables_3': 300, 'without_solution': 200, 'other_numbers_improving': 100}))


# ------------------------------------------------------------------ O02, O03
def gen_climb(rng, k):
    """A model and objectives of one direction with a long way to the optimum."""
    n = rng.choice([40, 70, 140, 300])
    up = rng.random() < 0.5
    dom = list(range(n)) if up else list(range(n, 0, -1))
    vars_ = [['x', dom, 'list'], ['y', [0, 1], 'list']]
    if rng.random() < 0.5:
        vars_.reverse()
    kinds = [['v', 'x'], ['mul', ['v', 'x'], ['c', 2]], ['sub', ['add', ['v', 'x'], ['v', 'x']], ['c', 5]], ['add', ['v', 'x'], ['c', 7]]]
    objectives = [['M' if up else 'm', rng.choice(kinds)] for _ in range(k)]
    if rng.random() < 0.3:
        objectives[rng.randrange(k)] = ['m' if up else 'M', ['neg', ['v', 'x']]]
    return {'vars': vars_, 'cons': [], 'params': []}, [rng.choice(['ORDERED', 'REVERSED', 'GROUPS']), rng.random() < 0.5], objectives


def gen_o02(rng, i, tier):
    if rng.random() < 0.02:
        spec, cfg, objectives = gen_climb(rng, rng.choice([1, 2, 3]))
        return {'spec': spec, 'cfg': cfg, 'objectives': objectives, 'prefix': rng.choice([None, None, 200]), 'box': 'list'}
    spec = gen_opt_model(rng, 500)
    k = rng.choice([1, 1, 2, 2, 3])
    objectives = [[rng.choice('mM'), gen_objective(rng, spec)] for _ in range(k)]
    if rng.random() < 0.15:
        # many objectives that go together, and some that do not
        mm, f = objectives[0]
        other = 'M' if mm == 'm' else 'm'
        alike = [[mm, f], [other, ['neg', f]], [mm, ['add', f, ['c', 3]]], [mm, ['mul', f, ['c', 2]]], [other, ['sub', ['c', 1], f]]]
        rng.shuffle(alike)
        objectives = alike[:rng.randint(2, 5)] + objectives[1:]
        rng.shuffle(objectives)
    return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'objectives': objectives, 'spoil': rng.choice([None, None, None, 'clear', 0, 5, -9]),
            'prefix': rng.choice([None, None, None, 1, 2]), 'box': rng.choice(['list', 'tuple', 'gen'])}


def run_o02(case, obs):
    spec = case['spec']
    rm = ref.RefModel(spec)
    par, names = rm.par, rm.names
    want = set(rm.solutions())
    b = sut.Built(spec)
    objs = [make_objective(mm, f, b) for mm, f in case['objectives']]
    arg = objs[0] if len(objs) == 1 and case['box'] == 'list' else {
        'list': lambda: list(objs), 'tuple': lambda: tuple(objs), 'gen': lambda: (o for o in objs)}[case['box']]()
    vec = lambda t: [value(f, names, t, par) for _, f in case['objectives']]
    gen = sut.make_solver(case['cfg']).optimize(b.model, arg)
    chain = []
    for o in (gen if case['prefix'] is None else itertools.islice(gen, case['prefix'])):
        t = sut.as_tuple(o.solution, names)
        obs.count('improvements')
        require(t in want, 'an optimization yields something that is not a solution', got=t, step=len(chain))
        require(not o.is_optimal, 'an intermediate solution is claimed optimal')
        v = vec(t)
        for w in chain:
            require(all(better(mm, x, y) for (mm, _), x, y in zip(case['objectives'], v, w)),
                    'a solution does not improve on an earlier one in every objective', values=v, earlier=w,
                    objectives=case['objectives'], cfg=case['cfg'], step=len(chain))
            obs.count('pairs_compared')
        chain.append(v)
        require(len(chain) <= chain_cap(rm), 'endless optimization')
        for ob, x in zip(objs, v):
            require(ob.evaluate(o.solution) == x, 'Objective.evaluate gives another value')
        if case.get('spoil'):
            # it belongs to the consumer
            obs.count('solutions_changed_by_the_consumer')
            if case['spoil'] == 'clear':
                o.solution.clear()
            else:
                for n in names:
                    o.solution[n] = case['spoil']
    if case['prefix'] is None:
        obs.count('complete_streams')
        require(bool(chain) == bool(want), 'an optimization yields nothing although there are solutions'
                if want else 'an optimization yields a solution where there is none', cfg=case['cfg'])
        if chain:
            last = chain[-1]
            for t in want:
                v = vec(t)
                require(not all(better(mm, x, y) for (mm, _), x, y in zip(case['objectives'], v, last)),
                        'the stream ends although a solution is better in every objective', last=last, better=t,
                        values=v, objectives=case['objectives'], cfg=case['cfg'])
    obs.peak('chain_length', len(chain))
    if len(chain) > 1:
        obs.nontrivial()


register(Check(
    'O02', 'one to three objectives; an online monitor compares every yielded solution with all earlier ones and the last '
           'with the enumerated solutions; complete and abandoned streams; non-trivial: at least two solutions in the '
           'stream',
    gen_o02, run_o02, quick=15000, thorough=250000,
    need={'pairs_compared': 2000, 'complete_streams': 2500, 'improvements': 4000}))


def gen_o03(rng, i, tier):
    spec = gen_opt_model(rng, 400)
    k = rng.choice([2, 2, 2, 3, 4])
    objectives = [[rng.choice('mM'), gen_objective(rng, spec)] for _ in range(k)]
    r = rng.random()
    if r < 0.15:
        objectives = [objectives[0], objectives[0]]
    elif r < 0.25:
        # directly opposed objectives
        f = objectives[0][1]
        objectives = [['m', f], ['M', f]]
    elif r < 0.4:
        f = gen_objective(rng, spec)
        objectives = [['m', f], ['M', ['neg', f]]] + objectives[:1]
    return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'objectives': objectives, 'single': gen_objective(rng, spec),
            'mm': rng.choice('mM')} if rng.random() > 0.03 else climb_o03(rng)


def climb_o03(rng):
    spec, cfg, objectives = gen_climb(rng, rng.choice([2, 3, 4]))
    return {'spec': spec, 'cfg': cfg, 'objectives': objectives, 'single': objectives[0][1], 'mm': objectives[0][0]}


def run_o03(case, obs):
    spec = case['spec']
    rm = ref.RefModel(spec)
    par, names = rm.par, rm.names
    want = rm.solutions()
    b = sut.Built(spec)
    solver = sut.make_solver(case['cfg'])
    objs = [make_objective(mm, f, b) for mm, f in case['objectives']]
    res = solver.optimal_solution(b.model, objs)
    obs.count('optimizations')
    if not want:
        require(res.solution is None and not res.is_optimal, 'an optimum of a model without solutions')
    else:
        require(res.solution is not None and res.is_optimal, 'an uninterrupted optimization of a solvable model is not '
                'reported optimal', result=repr(res), objectives=case['objectives'])
        t = sut.as_tuple(res.solution, names)
        require(t in set(want), 'the result is not a solution of the model', got=t)
        vec = lambda t: [value(f, names, t, par) for _, f in case['objectives']]
        mine = vec(t)
        vectors = set()
        for w in want:
            v = vec(w)
            vectors.add(tuple(v))
            require(not all(better(mm, x, y) for (mm, _), x, y in zip(case['objectives'], v, mine)),
                    'a solution is better in every objective than the one returned', objectives=case['objectives'],
                    returned=[t, mine], better=[w, v], cfg=case['cfg'])
            obs.count('solutions_compared')
        obs.see('vector', mine)
        if len(vectors) > 1:
            obs.nontrivial()
    # one objective, alone, in a list, and twice
    f, mm = case['single'], case['mm']
    vals = [value(f, names, w, par) for w in want]
    best = (min(vals) if mm == 'm' else max(vals)) if vals else None
    single = make_objective(mm, f, b)
    for arg, how in ((single, 'alone'), ([single], 'in a list'), ([single, single], 'twice'), ((single, make_objective(mm, f, b)), 'and a copy')):
        res = solver.optimal_solution(b.model, arg)
        got = None if res.solution is None else value(f, names, sut.as_tuple(res.solution, names), par)
        require(got == best and bool(res.is_optimal) == bool(want), 'the same objective given {} has another optimum'.format(how),
                objective=f, kind=mm, best=best, got=got, result=repr(res))
        obs.count('single_objective_runs')


register(Check(
    'O03', 'two to four objectives (independent, equal, opposed, redundant); the result is compared in all objectives with '
           'every enumerated solution; one objective given alone, in a list, twice and copied must have one optimum; '
           'non-trivial: solutions differ in objective values',
    gen_o03, run_o03, quick=10500, thorough=150000,
    need={'solutions_compared': 20000, 'single_objective_runs': 8000}))


# ------------------------------------------------------------------ O04
def gen_o04(rng, i, tier):
    spec = gen_clocked(rng, maxspace=150)
    for v in spec['vars']:
        if rng.random() < 0.5 and v[2] in ('list', 'tuple'):
            v[1].sort(reverse=True)
    steps = []
    for _ in range(rng.randint(3, 7)):
        steps.append([rng.choice(['limit', 'limit', 'limit', 'timeout', 'timeout', 'timeout', 'both', 'free', 'solve']),
                      rng.randrange(0, 64), rng.randrange(0, 5), rng.random() < 0.5, rng.randrange(2), rng.randrange(2)])
    objectives = [[rng.choice('mM'), gen_objective(rng, spec)] for _ in range(2)]
    if rng.random() < 0.5:
        names = names_of(spec)
        f = ['v', names[0]]
        for n in names[1:]:
            f = ['add', f, ['mul', ['v', n], ['c', rng.choice([1, 2, 3, -1])]]]
        objectives[0][1] = f
    return {'spec': spec, 'policy': rng.choice(DETERMINISTIC), 'compile': rng.random() < 0.6, 'steps': steps,
            'objectives': objectives, 'tick': rng.choice([0.25, 1.0])}


def run_o04(case, obs):
    spec = case['spec']
    rm = ref.RefModel(spec)
    par, names = rm.par, rm.names
    want = rm.solutions()
    tick = Ticker(case['tick'])
    b = sut.Built(spec, log=tick)
    cfg = [case['policy'], case['compile']]
    objs = [make_objective(mm, f, b) for mm, f in case['objectives']]
    shared = [sut.make_solver(cfg), sut.make_solver(cfg)]
    chains = []
    for (mm, f), ob in zip(case['objectives'], objs):
        t0 = tick.searching
        chain = sut.collect_opt(sut.make_solver(cfg).optimize(b.model, ob), names, chain_cap(rm))
        chains.append((chain, tick.searching - t0))
        require(bool(chain) == bool(want), 'wrong solvability')
    interrupted = 0
    for what, n, lim, percall, which, sol in case['steps']:
        solver = shared[sol]
        mm, f = case['objectives'][which]
        chain, total_time = chains[which]
        vals = [value(f, names, w, par) for w in want]
        best = (min(vals) if mm == 'm' else max(vals)) if vals else None
        limit = timeout = None
        if what in ('limit', 'both'):
            limit = [1, 2, len(chain), max(1, len(chain) - 1), len(chain) + 1][lim]
        if what in ('timeout', 'both'):
            timeout = total_time * n / 64
        if what == 'solve':
            solver.limit = solver.timeout = None
            k = 0
            for _ in itertools.islice(solver.solve(b.model, limit=1 + n % 3), 4):
                k += 1
            continue
        solver.limit = solver.timeout = None
        kw = {}
        if percall:
            kw = {'limit': limit, 'timeout': timeout}
        else:
            solver.limit, solver.timeout = limit, timeout
        # what the interrupted stream delivers
        t0 = tick.searching
        stream = sut.collect_opt(solver.optimize(b.model, objs[which], **kw), names, chain_cap(rm))
        spent = tick.searching - t0
        stats = solver.get_stats()
        require(stream == chain[:len(stream)], 'an interrupted optimization is not the beginning of the complete one',
                complete=chain, got=stream)
        t0 = tick.searching
        res = solver.optimal_solution(b.model, objs[which], **kw)
        spent2 = tick.searching - t0
        after = solver.get_stats()
        obs.count('optimizations')
        got = None if res.solution is None else sut.as_tuple(res.solution, names)
        require(got == (stream[-1] if stream else None), 'the result is not the last solution found', stream=stream,
                got=got, limit=limit, timeout=timeout)
        cut = len(stream) < len(chain) or (limit is not None and len(stream) >= limit) or (
            timeout is not None and spent2 > timeout)
        if res.is_optimal:
            obs.count('claimed_optimal')
            require(got is not None and value(f, names, got, par) == best, 'claimed optimal but it is not',
                    limit=limit, timeout=timeout, got=got, best=best, complete_time=total_time)
            require(after.interrupt is None, 'claimed optimal although interrupted', interrupt=after.interrupt)
        if limit is not None and len(stream) >= limit:
            require(not res.is_optimal, 'an optimization stopped by its limit claims optimality', limit=limit,
                    chain=len(chain))
            obs.count('stopped_by_limit')
            interrupted += 1
        elif timeout is not None and spent2 > timeout:
            require(not res.is_optimal or after.interrupt is None, 'an optimization stopped by its timeout claims optimality')
            require(after.interrupt == 'timeout' or len(stream) == len(chain), 'no interruption reported')
            obs.count('stopped_by_timeout' if after.interrupt else 'ended_in_last_step')
            interrupted += bool(after.interrupt)
            if not stream:
                obs.count('stopped_before_the_first_solution')
        else:
            require(bool(res.is_optimal) == bool(want), 'an uninterrupted optimization is not reported correctly',
                    result=repr(res), solutions=len(want), limit=limit, timeout=timeout, interrupt=after.interrupt)
            require(after.interrupt is None, 'an interruption is reported for an uninterrupted optimization',
                    interrupt=after.interrupt)
            obs.count('uninterrupted')
    if interrupted and len(chains[0][0]) > 1:
        obs.nontrivial()


register(Check(
    'O04', 'histories of 3-7 optimizations on two shared solvers under virtual time, with limits around the length of the '
           'chain of improvements and timeouts at fractions of the complete search; results are compared with the '
           'complete deterministic stream and the enumerated optimum; non-trivial: an interruption and a chain of 2 or more',
    gen_o04, run_o04, quick=7500, thorough=150000, virtual_clock=True,
    need={'claimed_optimal': 1000, 'stopped_by_limit': 1200, 'stopped_by_timeout': 1200, 'uninterrupted': 1000,
          'stopped_before_the_first_solution': 200}))


# ------------------------------------------------------------------ O05
def gen_o05(rng, i, tier):
    spec = gen_opt_model(rng, 250, user=False)
    if not spec['vars']:
        spec['vars'] = [['x', [2, 1, 0], 'list']]
    # a second model on the same variables, with other constraints
    other = {'vars': [[v[0], sorted(v[1], reverse=True) if v[1] else [], 'list'] for v in spec['vars']], 'params': spec['params'],
             'cons': [c for c in spec['cons'] if rng.random() < 0.5]}
    if rng.random() < 0.6:
        other['cons'].append(ref.gen_constraint(rng, other['vars'], [p[0] for p in spec['params']], user=False, consts=False))
    objectives = [[rng.choice('mM'), gen_objective(rng, spec)] for _ in range(3)]
    if rng.random() < 0.4:
        objectives[1] = ['M' if objectives[0][0] == 'm' else 'm', objectives[0][1]]
    steps = []
    for _ in range(rng.randint(4, 9)):
        steps.append([rng.choice(['optimal', 'optimal', 'optimal', 'limited', 'abandon', 'abandon_open', 'solve', 'solve', 'multi']),
                      rng.randrange(2), rng.randrange(3), rng.randrange(2), rng.randint(1, 2)])
    steps.append(['solve', 0, 0, 0, 1])
    steps.append(['optimal', 0, rng.randrange(3), 1, 1])
    return {'specs': [spec, other], 'objectives': objectives, 'steps': steps, 'cfgs': [sut.gen_cfg(rng), sut.gen_cfg(rng)]}


def run_o05(case, obs):
    built = [sut.Built(sp) for sp in case['specs']]
    rms = [ref.RefModel(sp) for sp in case['specs']]
    wants = [rm.solutions() for rm in rms]
    solvers = [sut.make_solver(c) for c in case['cfgs']]
    par, names = rms[0].par, rms[0].names
    before = [snapshot_model(b) for b in built]
    objs = [make_objective(mm, f, built[0]) for mm, f in case['objectives']]     # shared by both models
    open_streams = []
    interfering = 0

    def check_best(k, which, t, where):
        mm, f = case['objectives'][which]
        vals = [value(f, names, w, par) for w in wants[k]]
        best = (min(vals) if mm == 'm' else max(vals)) if vals else None
        got = None if t is None else value(f, names, t, par)
        require((t is None and not vals) or (t in set(wants[k]) and got == best), 'wrong optimum ' + where,
                objective=f, kind=mm, best=best, got=[t, got], model=k, history=case['steps'], cfg=case['cfgs'])
    for what, k, which, sv, n in case['steps']:
        b, solver = built[k], solvers[sv]
        if what == 'optimal':
            res = solver.optimal_solution(b.model, objs[which])
            check_best(k, which, None if res.solution is None else sut.as_tuple(res.solution, names),
                       'on a model, objective or solver used before')
            require(bool(res.is_optimal) == bool(wants[k]), 'wrong optimality flag', result=repr(res))
            obs.count('reoptimizations')
            interfering += 1
        elif what == 'limited':
            solver.optimal_solution(b.model, objs[which], limit=n)
            obs.count('limited')
            interfering += 1
        elif what == 'multi':
            solver.optimal_solution(b.model, [objs[which], objs[(which + 1) % 3]])
            interfering += 1
        elif what in ('abandon', 'abandon_open'):
            gen = solver.optimize(b.model, objs[which])
            for o in itertools.islice(gen, n):
                require(sut.as_tuple(o.solution, names) in set(wants[k]), 'an optimization yields a wrong solution')
            if what == 'abandon':
                gen.close()
            else:
                open_streams.append(gen)
            obs.count('abandoned')
            interfering += 1
        else:
            got = sut.collect(solver.solve(b.model), names, cap_of(rms[k]))
            require(sorted(got) == sorted(wants[k]), 'solving after optimizing yields other solutions',
                    missing=sorted(set(wants[k]) - set(got))[:4], extra=sorted(set(got) - set(wants[k]))[:4],
                    history=case['steps'], model=k)
            obs.count('solves_after')
    # the streams left open go on correctly
    for gen in open_streams:
        gen.close()
    for b, snap in zip(built, before):
        now = snapshot_model(b)
        require(now == snap, 'optimizing changed the model', before=snap, after=now)
    for which in range(3):
        for k in range(2):
            fresh = sut.Built(case['specs'][k])
            mm, f = case['objectives'][which]
            r1 = sut.make_solver(case['cfgs'][0]).optimal_solution(fresh.model, make_objective(mm, f, fresh))
            r2 = solvers[1].optimal_solution(built[k].model, objs[which])
            v = [None if r.solution is None else value(f, names, sut.as_tuple(r.solution, names), par) for r in (r1, r2)]
            require(v[0] == v[1] and r1.is_optimal == r2.is_optimal, 'a used model and a fresh one have different optima',
                    fresh=v[0], used=v[1], objective=f, kind=mm)
            obs.count('fresh_comparisons')
    if interfering > 1 and wants[0]:
        obs.nontrivial()


register(Check(
    'O05', 'histories of 6-11 optimizations (complete, limited, abandoned, left open, multi-objective) and solves over two '
           'models, three shared objectives and two solvers; every result is judged by enumeration, and every model and '
           'objective compared with fresh ones at the end',
    gen_o05, run_o05, quick=5000, thorough=120000,
    need={'reoptimizations': 5000, 'solves_after': 5000, 'abandoned': 2500, 'fresh_comparisons': 10000}))
