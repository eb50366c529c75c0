"""S01..S10: the backtracking solver."""
import fractions
import itertools
import json
import random

from vmon import ref, sut
from vmon.clock import CLOCK
from vmon.core import Check, HarnessError, Skip, Violation, register, require

DETERMINISTIC = [p for p in sut.POLICIES if p != 'RANDOM']


def cap_of(rm):
    return rm.space() + 2


def names_of(spec):
    return [v[0] for v in spec['vars']]


def solve_set(b, cfg, want_cap, **kw):
    return sut.collect(sut.make_solver(cfg).solve(b.model, **kw), names_of(b.spec), want_cap)


def structured_model(rng):
    """Models of familiar shape: permutations, linear systems, small graph colourings, magic rows, queens."""
    r = rng.random()
    if r < 0.08:
        # all-different groups of any size over few values (often more variables than values), overlapping
        n, k = rng.randint(3, 6), rng.randint(2, 4)
        names = ['u{}'.format(j) for j in range(n)]
        vars_ = [[x, rng.sample(range(k), rng.choice([k, k, k - 1])), 'list'] for x in names]
        cons = [['ad', rng.sample(names, rng.randint(2, n))] for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.5:
            cons.append(['expr', [rng.choice(['le', 'lt', 'ne']), ['v', names[0]], ['v', names[1]]]])
    elif r < 0.25:
        n = rng.randint(3, 5)
        names = ['v{}'.format(k) for k in range(n)]
        vars_ = [[x, list(range(n)), 'range'] for x in names]
        cons = [['ad', names]]
        for i, j in itertools.combinations(range(n), 2):
            if rng.random() < 0.6:
                cons.append(['expr', ['ne', ['abs', ['sub', ['v', names[i]], ['v', names[j]]]], ['c', j - i]]])
    elif r < 0.5:
        n, k = rng.randint(3, 6), rng.randint(2, 3)
        names = ['n{}'.format(j) for j in range(n)]
        vars_ = [[x, list(range(k)), rng.choice(['tuple', 'list'])] for x in names]
        cons = []
        for i, j in itertools.combinations(range(n), 2):
            if rng.random() < 0.45:
                e = ['ne', ['v', names[i]], ['v', names[j]]]
                cons.append(['expr', e] if rng.random() < 0.7 else ['ad', [names[i], names[j]]])
    elif r < 0.7:
        names = ['a', 'b', 'c', 'd']
        vars_ = [[x, list(range(1, 6)), 'range'] for x in names]
        cons = [['ad', rng.sample(names, 3)], ['ad', rng.sample(names, 2)],
                ['expr', ['eq', ['add', ['v', 'a'], ['mul', ['c', 2], ['v', 'b']]], ['add', ['v', 'c'], ['v', 'd']]]]]
    elif r < 0.85:
        # overlapping all-different groups (a 3x3 latin square)
        names = ['c{}{}'.format(i, j) for i in range(3) for j in range(3)]
        vars_ = [[x, rng.sample([1, 2, 3], 3), 'list'] for x in names]
        cons = [['ad', ['c{}{}'.format(i, j) for j in range(3)]] for i in range(3)]
        cons += [['ad', ['c{}{}'.format(i, j) for i in range(3)]] for j in range(3)]
        cons = [c for c in cons if rng.random() < 0.95]
        for _ in range(rng.randint(0, 2)):
            cons.append(['expr', ['ne', ['v', rng.choice(names)], ['c', rng.randint(1, 3)]]])
        rng.shuffle(cons)
    else:
        n = rng.randint(6, 9)
        names = ['b{}'.format(j) for j in range(n)]
        vars_ = [[x, [0, 1], 'bool'] for x in names]
        f = ['v', names[0]]
        for x in names[1:]:
            f = ['add', f, ['mul', ['c', rng.choice([1, 1, 2, 3])], ['v', x]]]
        cons = [['expr', [rng.choice(['eq', 'le', 'ge']), f, ['c', rng.randint(1, 6)]]]]
        for _ in range(rng.randint(0, 3)):
            x, y = rng.sample(names, 2)
            cons.append(['expr', [rng.choice(['le', 'or', 'ne', 'and']), ['v', x], ['v', y]]])
    rng.shuffle(cons)
    return {'vars': vars_, 'params': [], 'cons': cons}


def any_model(rng, maxspace=1500, **kw):
    if rng.random() < 0.3:
        return structured_model(rng)
    return ref.gen_model(rng, maxspace=maxspace, **kw)


# ------------------------------------------------------------------ S01
def many_variables(rng):
    """Dozens of variables under wide all-different constraints, with so many values that any order of search succeeds at once."""
    n = rng.randint(12, 48)
    names = ['x{}'.format(k) for k in range(n)]
    if rng.random() < 0.5:
        rng.shuffle(names)
    near = {name: set() for name in names}
    cons = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        group = rng.sample(names, rng.randint(2, n))
        if rng.random() < 0.4:
            group.sort(key=names.index)
        cons.append(['ad', group])
        for a in group:
            near[a] |= set(group) - {a}
    many = {name: 0 for name in names}
    for _ in range(rng.choice([0, 0, 2, 8, 20])):
        a, b = rng.sample(names, 2)
        many[a] += 1
        many[b] += 1
        cons.append(['expr', ['ne', ['v', a], ['add', ['v', b], ['c', rng.choice([0, 1, -1, 3])]]]])
    rng.shuffle(cons)
    room = max(len(near[x]) + many[x] for x in names) + 1
    vars_ = []
    for x in names:
        size = room if rng.random() < 0.5 else len(near[x]) + many[x] + 1
        dom = list(range(size)) if rng.random() < 0.5 else rng.sample(range(-room, 2 * room), size)
        vars_.append([x, dom, rng.choice(['list', 'tuple'])])
    return {'vars': vars_, 'params': [], 'cons': cons}


# domains whose values are no integers; numbers and texts that read alike are different values
ODD = {'none': None, 'zero': 0, 'one': 1, 'minus': -1, 'two': 2, 'empty': '', 'text': 'one', 'digit': '1', 'word': 'None', 'pair': (1, 2), 'nothing': (),
       'half': 0.5, 'third': fractions.Fraction(1, 3), 'frozen': frozenset([1]), 'bytes': b'1', 'type': int, 'dots': Ellipsis}
ODD_RULES = ['eq', 'ne', 'eqc', 'nec', 'or', 'and', 'not', 'ad', 'ad3', 'fun', 'unary']


def gen_odd(rng):
    n = rng.randint(1, 4)
    pool = rng.sample(sorted(ODD), rng.randint(2, 6))
    doms = [rng.sample(pool, rng.randint(1, min(4, len(pool)))) for _ in range(n)]
    cons = []
    for _ in range(rng.randint(0, 4)):
        a, b, c = (rng.randrange(n) for _ in range(3))
        cons.append([rng.choice(ODD_RULES), a, b, c, rng.choice(pool)])
    return {'odd': doms, 'cons': cons, 'cfg': sut.gen_cfg(rng)}


def alike(base, na, nb, nc, value):
    class Alike(base):
        def evaluate(self, substitution):
            return type(substitution[na]) is type(substitution[nb]) or substitution[nc] == value
    return Alike([na, nb, nc])


def run_odd(case, obs):
    s = sut.S()
    E, C = s.expression, s.constraint
    m = s.model.Model()
    doms = [[ODD[k] for k in d] for d in case['odd']]
    names = ['v{}'.format(k) for k in range(len(doms))]
    vs = [m.add_int_variable(d, name=n) for d, n in zip(doms, names)]
    tests = []
    for rule, a, b, c, kind in case['cons']:
        value = ODD[kind]
        x, y, z = vs[a], vs[b], vs[c]
        k = E.Const(value)
        if rule == 'fun':
            con, test = alike(C.Constraint, names[a], names[b], names[c], value), lambda t: type(t[a]) is type(t[b]) or t[c] == value
        elif rule in ('ad', 'ad3'):
            group = sorted({a, b} if rule == 'ad' else {a, b, c})
            con, test = C.AllDifferentConstraint([names[g] for g in group]), lambda t, group=group: len({t[g] for g in group}) == len(group)
        else:
            con, test = {'eq': lambda: (x == y, lambda t: t[a] == t[b]), 'ne': lambda: (x != y, lambda t: t[a] != t[b]),
                         'eqc': lambda: ((x == k) | (y == z), lambda t: t[a] == value or t[b] == t[c]),
                         'nec': lambda: ((x != k) & (y != k), lambda t: t[a] != value and t[b] != value),
                         'or': lambda: ((x == y) | (y != z), lambda t: t[a] == t[b] or t[b] != t[c]),
                         'and': lambda: ((x != y) & ((y == k) | (z == k)), lambda t: t[a] != t[b] and (t[b] == value or t[c] == value)),
                         'not': lambda: (E.Not(x == y), lambda t: t[a] != t[b]), 'unary': lambda: (x != k, lambda t: t[a] != value)}[rule]()
        m.add_constraint(con)
        tests.append({t for t in itertools.product(*doms) if test(t)})
    want = [t for t in itertools.product(*doms) if all(t in ok for ok in tests)]
    gen = sut.make_solver(case['cfg']).solve(m)
    seen = []
    for sol in itertools.islice(gen, len(want) + 2):
        require(sorted(sol) == names, 'a solution does not bind exactly the variables', case=case)
        t = tuple(sol[n] for n in names)
        require(t in want, 'not a solution of a model with values of other types', got=repr(t), case=case)
        require(t not in seen, 'a solution twice', got=repr(t), case=case)
        seen.append(t)
        obs.count('odd_solutions')
    require(len(seen) == len(want), 'solutions of a model with values of other types are missing', found=len(seen), expected=len(want), case=case)
    obs.count('odd_models')
    if 0 < len(want) < len(list(itertools.product(*doms))):
        obs.nontrivial()


def gen_s01(rng, i, tier):
    if rng.random() < 0.04:
        return gen_odd(rng)
    r = rng.random()
    if r < 0.03:
        return {'spec': many_variables(rng), 'cfg': sut.gen_cfg(rng), 'take': rng.choice([1, 3, 20]), 'limit': rng.choice([None, 1, 7]),
                'timeout': None, 'how': rng.choice(['solve', 'percall', 'modelsolver'])}
    if r < 0.35:
        spec = ref.gen_model(rng, maxspace=10**7, maxvars=8, maxcons=7, domain_len=8)     # too large to enumerate
    else:
        spec = any_model(rng, maxspace=5000, maxvars=6)
    return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'take': rng.choice([3, 40, 200]),
            'limit': rng.choice([None, None, 1, 7, 50]), 'timeout': rng.choice([None, None, 1000.0]),
            'how': rng.choice(['solve', 'solve', 'percall', 'modelsolver'])}


def run_s01(case, obs):
    if 'odd' in case:
        return run_odd(case, obs)
    s = sut.S()
    spec = case['spec']
    rm = ref.RefModel(spec)
    names = rm.names
    b = sut.Built(spec)
    if case['how'] == 'percall':
        gen = s.solver.Solver().solve(b.model, limit=case['limit'], timeout=case['timeout'],
                                      var_selection_policy=sut.policy(case['cfg'][0]))
    elif case['how'] == 'modelsolver':
        class Mine(s.solver.ModelSolver):
            pass
        gen = iter(Mine(model=b.model, limit=case['limit'], timeout=case['timeout'],
                        var_selection_policy=sut.policy(case['cfg'][0]), compile_constraints=case['cfg'][1]))
    else:
        gen = sut.make_solver(case['cfg'], limit=case['limit'], timeout=case['timeout']).solve(b.model)
    n = 0
    for sol in itertools.islice(gen, case['take']):
        t = sut.as_tuple(sol, names)
        n += 1
        obs.count('solutions_checked')
        obs.see('solution', t)
        for name, value, dom in zip(names, t, rm.domains):
            require(value in dom, 'a solution gives a variable a value outside its domain', variable=name, value=value,
                    domain=dom, cfg=case['cfg'])
        env = dict(zip(names, t))
        for (vs, p), c in zip(rm.cons, spec['cons']):
            require(p(env), 'a solution violates a constraint', constraint=c, solution=env, cfg=case['cfg'],
                    how=case['how'])
            obs.count('constraints_checked')
    obs.count('policy_' + case['cfg'][0])
    obs.peak('variables', len(names))
    if len(names) > 16 and n:
        obs.count('models_of_many_variables')
    if n and spec['cons']:
        obs.nontrivial()


register(Check(
    'S01', 'random and structured models (up to 8 variables, spaces up to 10^7, and up to 48 variables under wide all-different constraints), every configuration, up to 200 '
           'solutions each; every solution is judged by independent evaluation of every constraint; non-trivial: a '
           'solution of a constrained model was seen',
    gen_s01, run_s01, quick=16000, thorough=200000, case_wall=20,
    need={'solutions_checked': 20000, 'constraints_checked': 40000, 'models_of_many_variables': 200, 'odd_solutions': 500}))


# ------------------------------------------------------------------ S02
def gen_s02(rng, i, tier):
    if rng.random() < 0.04:
        return gen_odd(rng)
    if rng.random() < 0.03:
        spec = {'vars': [], 'params': [['par0', 1]] if rng.random() < 0.5 else [],
                'cons': [['bool', True]] if rng.random() < 0.5 else []}
    else:
        spec = any_model(rng, maxspace=1500 if tier == 'quick' else 6000, maxvars=6, maxcons=6)
    return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'how': rng.choice(['solve', 'modelsolver', 'none'])}


def run_s02(case, obs):
    if 'odd' in case:
        return run_odd(case, obs)
    s = sut.S()
    spec = case['spec']
    rm = ref.RefModel(spec)
    want = rm.solutions()
    b = sut.Built(spec)
    if case['how'] == 'modelsolver':
        gen = iter(s.solver.ModelSolver(model=b.model, solver=sut.make_solver(case['cfg'])))
    elif case['how'] == 'none':
        gen = sut.make_solver(case['cfg'], limit=None, timeout=s.utils.INFINITY).solve(b.model)
    else:
        gen = sut.make_solver(case['cfg']).solve(b.model)
    got = sut.collect(gen, rm.names, cap_of(rm))
    obs.count('complete_solves')
    obs.count('solutions_seen', len(got))
    obs.see('solution_set', sorted(got))
    if not spec['vars']:
        obs.count('models_without_variables')
    if not want:
        obs.count('models_without_solution')
    dup = len(got) - len(set(got))
    require(dup == 0, 'a solution is yielded twice', cfg=case['cfg'], total=len(got), duplicates=dup)
    require(sorted(got) == sorted(want), 'the solutions are not exactly those of the model', cfg=case['cfg'],
            missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5])
    if want and len(want) < rm.space():
        obs.nontrivial()


register(Check(
    'S02', 'random and structured models with spaces up to 1500 (thorough 6000) assignments, every configuration; the '
           'multiset of solutions is compared with independent enumeration; non-trivial: some but not all assignments '
           'are solutions',
    gen_s02, run_s02, quick=18000, thorough=250000, case_wall=20,
    need={'odd_models': 200, 'complete_solves': 4000, 'solutions_seen': 40000, 'models_without_variables': 40,
          'models_without_solution': 200}))


# ------------------------------------------------------------------ S03
def gen_s03(rng, i, tier):
    if rng.random() < 0.25:
        # bigger, tightly constrained: no reference needed for agreement
        n = rng.randint(5, 6)
        names = ['v{}'.format(k) for k in range(n)]
        cons = [['ad', names]]
        if rng.random() < 0.4:
            # several smaller groups instead of one
            cons = [['ad', rng.sample(names, rng.choice([2, 2, 3]))] for _ in range(rng.randint(2, 5))]
        for a, b in itertools.combinations(range(n), 2):
            if len(cons) > 12 or rng.random() < 0.2:
                continue
            cons.append(['expr', ['ne', ['abs', ['sub', ['v', names[a]], ['v', names[b]]]], ['c', rng.choice([b - a, 1, 2])]]])
        spec = {'vars': [[x, list(range(n)), 'range'] for x in names], 'params': [], 'cons': cons}
    else:
        spec = any_model(rng, maxspace=800, maxvars=5, user=False, awkward=0.05)
    names = names_of(spec)
    g = ref.FormulaGen(rng, names, total=True)
    perm = list(range(len(names)))
    rng.shuffle(perm)
    cperm = list(range(len(spec['cons'])))
    rng.shuffle(cperm)
    domains = []
    for v in spec['vars']:
        d = list(v[1])
        rng.shuffle(d)
        domains.append(d)
    fresh = rng.sample([n for n in ref.PLAIN + ['w0', 'w1', 'w2', 'w3', 'w4', 'w5', 'w6', 'w7', 'w8', 'w9'] + ['w{}'.format(k) for k in range(10, 50)]
                        if n not in [p[0] for p in spec['params']]], len(names))
    if rng.random() < 0.4 and len(names) <= 12:
        # names that run into each other: they are the same when joined, cut off or compared without case
        alike = rng.choice([['a' * k for k in range(1, 13)], ['_'.join('a' * k) for k in range(1, 13)], ['a' * (k % 6 + 1) + 'b' * (k // 6) for k in range(12)],
                            ['{}y'.format('x' * 40), 'X' * 40] + ['{}{}'.format('x' * 40, k) for k in range(10)],
                            ['Ab', 'aB', 'ab', 'AB', 'A', 'a', 'b', 'B', 'aa', 'AA', 'Aa', 'aA'],
                            ['x1', 'x11', 'x111', 'x01', 'x001', 'x10', 'x_1', 'x1_', 'x__1', 'x1_1', 'x', 'x_']])
        alike = [n for n in alike if n not in [p[0] for p in spec['params']]]
        if len(alike) >= len(names):
            fresh = rng.sample(alike, len(names))
    return {'spec': spec, 'perm': perm, 'cperm': cperm, 'domains': domains, 'fresh': fresh, 'objective': g.any(2),
            'mm': rng.choice('mM')}


def rename(f, m):
    if f[0] == 'v':
        return ['v', m[f[1]]]
    if f[0] in ('p', 'c', 'C'):
        return f
    if f[0] in ('sum', 'Sum', 'Prod'):
        return [f[0], [rename(g, m) for g in f[1]]] + f[2:]
    return [f[0]] + [rename(g, m) for g in f[1:]]


def rename_con(c, m):
    if c[0] == 'expr':
        return ['expr', rename(c[1], m)]
    if c[0] == 'ad':
        return ['ad', [m[n] for n in c[1]]]
    return c


def run_s03(case, obs):
    s = sut.S()
    spec = case['spec']
    names = names_of(spec)
    m = dict(zip(names, case['fresh']))
    other = {'vars': [[m[spec['vars'][k][0]], case['domains'][k], 'list'] for k in case['perm']], 'params': spec['params'],
             'cons': [rename_con(spec['cons'][k], m) for k in case['cperm']]}
    kind = s.objective.Minimize if case['mm'] == 'm' else s.objective.Maximize
    results = []
    cap = ref.RefModel(spec).space() + 2
    shared = sut.Built(spec)
    for variant, sp in (('as declared', spec), ('permuted and renamed', other)):
        back = {v: k for k, v in m.items()} if sp is other else {n: n for n in names}
        f = case['objective'] if sp is spec else rename(case['objective'], m)
        order = [n if sp is spec else m[n] for n in names]
        par = dict(sp['params'])
        for pol in sut.POLICIES:
            for comp in (True, False):
                b = shared if sp is spec and pol in ('ORDERED', 'MAX_BOUND', 'RANDOM') else sut.Built(sp)
                solver = sut.make_solver([pol, comp])
                got = sut.collect(solver.solve(b.model), order, cap)
                res = solver.optimal_solution(b.model, kind(sut.build_expr(f, b.var, b.par)))
                best = None
                if res.solution is not None:
                    sut.as_tuple(res.solution, order)
                    best = ref.ev(f, res.solution, par)
                results.append(([variant, pol, comp], sorted(got), best, bool(res.is_optimal)))
                obs.count('configurations_compared')
    first = results[0]
    require(len(set(first[1])) == len(first[1]), 'a solution is yielded twice')
    for r in results[1:]:
        require(r[1] == first[1], 'two strategies find different solutions', one=first[0], other=r[0],
                counts=[len(first[1]), len(r[1])], only_first=sorted(set(first[1]) - set(r[1]))[:3],
                only_other=sorted(set(r[1]) - set(first[1]))[:3])
        require(r[2:] == first[2:], 'two strategies find different optima', one=[first[0], first[2:]],
                other=[r[0], r[2:]], objective=case['objective'], kind=case['mm'])
    obs.count('models')
    obs.see('solution_set', first[1])
    if first[1] and spec['cons']:
        obs.nontrivial()


register(Check(
    'S03', 'each model is solved and optimized under all 8 policies x 2 compilation settings, as declared and again '
           'renamed with variables, values and constraints permuted (32 runs), and all runs are compared with one '
           'another; non-trivial: a constrained model with a solution',
    gen_s03, run_s03, quick=1000, thorough=20000, case_wall=30,
    need={'configurations_compared': 8000, 'models': 300}))


# ------------------------------------------------------------------ S17
def gen_s17(rng, i, tier):
    spec = any_model(rng, maxspace=500 if tier == 'quick' else 2000, maxvars=6, user=rng.random() < 0.3)
    if rng.random() < 0.5:
        # few constraints, so that the order shows
        spec['cons'] = spec['cons'][:rng.randint(0, 2)]
    if rng.random() < 0.5:
        # the number of constraints of a variable is plain
        spec['cons'] = [c for c in spec['cons'] if c[0] == 'expr' and len(ref.variables(c[1])) > 1]
        names = names_of(spec)
        if rng.random() < 0.5 and len(names) > 2:
            hub = rng.choice(names)
            spec['cons'] += [['expr', ['ne', ['v', hub], ['v', n]]] for n in names if n != hub and rng.random() < 0.6]
    for v in spec['vars']:
        if v[2] in ('list', 'tuple', 'gen', 'iter') and rng.random() < 0.5:
            rng.shuffle(v[1])
    pols = rng.sample(['ORDERED', 'REVERSED', 'MIN_BOUND', 'MAX_BOUND'], 3) + rng.sample(['GROUPS', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT', 'RANDOM'], 2)
    names = names_of(spec)
    g = ref.FormulaGen(rng, names, total=True)
    return {'spec': spec, 'cfgs': [[p, rng.random() < 0.5] for p in pols], 'how': rng.choice(['own', 'call', 'modelsolver']),
            'objective': g.any(1) if names else ['C', 1], 'mm': rng.choice('mM'), 'spread': rng.random() < 0.08}


def lexicographic(stream, order):
    last = None
    for t in stream:
        key = [t[k] for k in order]
        if last is not None and not key > last:
            return False
        last = key
    return True


def orders(pol, sizes, degrees):
    """The orders of search a policy leaves open."""
    n = len(sizes)
    if pol == 'ORDERED':
        yield tuple(range(n))
    elif pol == 'REVERSED':
        yield tuple(reversed(range(n)))
    elif n > 7:
        yield None
    else:
        for p in itertools.permutations(range(n)):
            up = [sizes[k] for k in p]
            if pol == 'MIN_BOUND' and up != sorted(up) or pol == 'MAX_BOUND' and up != sorted(up, reverse=True):
                continue
            if degrees:
                up = [degrees[k] for k in p]
                if pol == 'MIN_CONSTRAINT' and up != sorted(up) or pol == 'MAX_CONSTRAINT' and up != sorted(up, reverse=True):
                    continue
            yield p


def run_s17(case, obs):
    s = sut.S()
    spec = case['spec']
    rm = ref.RefModel(spec)
    names = rm.names
    b = sut.Built(spec)
    place = [{v: k for k, v in enumerate(b.model.get_var_domain(n))} for n in names]
    sizes = [len(p) for p in place]
    cons = list(b.model.constraints())
    degrees = None
    if all(len(c.vars()) > 1 and not isinstance(c, s.constraint.AllDifferentConstraint) for c in cons):
        degrees = [sum(n in c.vars() for c in cons) for n in names]
    kind = s.objective.Minimize if case['mm'] == 'm' else s.objective.Maximize
    for cfg in case['cfgs']:
        if cfg[0] == 'RANDOM':
            # 24 orders, of which a dozen solves sees more than one
            m = s.model.Model()
            for k in range(4):
                m.add_int_variable([0, 1], name='w{}'.format(k))
            seen = {tuple(sut.collect(sut.make_solver(cfg).solve(m), ['w0', 'w1', 'w2', 'w3'], 16)) for _ in range(12)}
            require(len(seen) > 1, 'the RANDOM policy always takes the same order')
            obs.count('random_orders', len(seen))
            if case.get('spread'):
                # first and last variable of 80 solves of three variables: the chance to miss one is below 10^-13
                m = s.model.Model()
                for k in range(3):
                    m.add_int_variable([0, 1], name='w{}'.format(k))
                firsts, lasts = set(), set()
                for _ in range(80):
                    some = sut.collect(sut.make_solver(cfg).solve(m), ['w0', 'w1', 'w2'], 8)
                    require(len(some) == 8 and sum(some[1]) == 1 and sum(some[4]) == 1, 'no order of the variables', stream=some)
                    lasts.add(some[1].index(1))
                    firsts.add(some[4].index(1))
                require(len(firsts) == len(lasts) == 3, 'the RANDOM policy never puts some variable first or last', first=sorted(firsts), last=sorted(lasts))
                obs.count('random_spreads')
        if case['how'] == 'call':
            gen = s.solver.Solver(compile_constraints=cfg[1]).solve(b.model, var_selection_policy=sut.policy(cfg[0]))
        elif case['how'] == 'modelsolver':
            gen = iter(s.solver.ModelSolver(model=b.model, var_selection_policy=sut.policy(cfg[0]), compile_constraints=cfg[1]))
        else:
            gen = sut.make_solver(cfg).solve(b.model)
        stream = sut.collect(gen, names, cap_of(rm))
        better = sut.collect_opt(sut.make_solver(cfg).optimize(b.model, kind(sut.build_expr(case['objective'], b.var, b.par))), names, cap_of(rm))
        for what, got in (('solutions', stream), ('improvements', better)):
            got = [tuple(place[k][v] for k, v in enumerate(t)) for t in got]
            if cfg[0] in ('ORDERED', 'REVERSED') or len(names) <= 7:
                require(any(lexicographic(got, p) for p in orders(cfg[0], sizes, degrees if what == 'solutions' else None)),
                        'the {} do not come in the order of the policy'.format(what), cfg=cfg, places=got[:8], sizes=sizes, names=names)
                obs.count(what + '_in_order', len(got))
                if len(got) > 1:
                    obs.count('streams_' + cfg[0])
                    if degrees and len(set(degrees)) > 1 and cfg[0].endswith('_CONSTRAINT'):
                        obs.count('by_constraints')
                    obs.nontrivial()
        obs.see('stream', [cfg[0], stream])


register(Check(
    'S17', 'models with shuffled domains under every policy, set on the solver, per call and through a model solver; the places of the values '
           'in their domains must come in lexicographic order with respect to an order of the variables the policy allows; '
           'non-trivial: more than one solution',
    gen_s17, run_s17, quick=5000, thorough=80000, case_wall=20,
    need=dict({'streams_' + p: 1000 for p in sut.POLICIES}, random_orders=10000, random_spreads=60, by_constraints=1000, solutions_in_order=60000, improvements_in_order=6000)))


# ------------------------------------------------------------------ S04
def gen_s04(rng, i, tier):
    spec = any_model(rng, maxspace=250, maxvars=4)
    if rng.random() < 0.03:
        spec = {'vars': [], 'params': [], 'cons': []}
    steps = []
    for _ in range(rng.randint(3, 6)):
        steps.append([rng.choice([None, 'inf', 'own', 'own']),
                      rng.choice(['none', 'inf', 0, 1, 1, 2, 3, 'total', 'total', 'total+1', 'total-1', 'half', 10**9]),
                      rng.choice(['unset', 'unset', 'none', 'inf', 0, 1, 2, 'total', 'total-1', 'total+1', 'half'])])
    return {'spec': spec, 'cfg': [rng.choice(sut.POLICIES), rng.random() < 0.6], 'steps': steps,
            'woven': [[rng.choice([1, 2, 3, 'half', 'total-1', 'total', 'none']) for _ in range(rng.randint(2, 4))], rng.randrange(10**9)]
            if rng.random() < 0.3 else None}


def run_s04(case, obs):
    s = sut.S()
    INF = s.utils.INFINITY
    spec = case['spec']
    rm = ref.RefModel(spec)
    want = rm.solutions()
    total = len(want)
    b = sut.Built(spec)
    det = case['cfg'][0] != 'RANDOM'
    full = sut.collect(sut.make_solver(case['cfg']).solve(b.model), rm.names, cap_of(rm))
    if sorted(full) != sorted(want):
        raise Violation('the unlimited solve is wrong')
    solver = sut.make_solver(case['cfg'])
    own = None

    def number(spec_):
        return {'none': None, 'inf': INF, 'total': total, 'total+1': total + 1, 'total-1': max(0, total - 1),
                'half': total // 2}.get(spec_, spec_)
    for how, own_spec, call_spec in case['steps']:
        if how is not None:
            own = number(own_spec)
            if how == 'inf':
                solver = sut.make_solver(case['cfg'], limit=own)
            else:
                solver.limit = own
        kw = {} if call_spec == 'unset' else {'limit': number(call_spec)}
        effective = kw.get('limit', own)
        n = None if effective is None or effective is INF else effective
        got = sut.collect(solver.solve(b.model, **kw), rm.names, cap_of(rm))
        stats = solver.get_stats()
        obs.count('limited_solves' if n is not None else 'unlimited_solves')
        expected = total if n is None else min(n, total)
        require(len(got) == expected, 'wrong number of solutions under a limit', limit=n, total=total, got=len(got),
                per_call=call_spec, solver_limit=repr(own))
        require(set(got) <= set(want) and len(set(got)) == len(got), 'a wrong or repeated solution under a limit')
        if det:
            require(got == full[:expected], 'a limited solve is not the beginning of the unlimited one', limit=n,
                    expected=full[:expected][:5], got=got[:5])
        reached = n is not None and total >= n
        if n == 0 and total == 0:
            pass
        else:
            require(stats.interrupt == ('limit' if reached else None), 'wrong interruption reported', limit=n,
                    total=total, interrupt=stats.interrupt)
            obs.count('limit_reached' if reached else 'limit_not_reached')
        require(stats.count == len(got), 'the statistics count other solutions', count=stats.count, yielded=len(got))
        if n is not None and n == total:
            obs.count('limit_equals_total')
    if case.get('woven') and total > 1:
        # several streams of one solver, each with its own limit, consumed in turns
        limits, seed = case['woven']
        rng = random.Random(seed)
        streams = [[number(n), solver.solve(b.model, limit=number(n)), []] for n in limits]
        live = list(streams)
        while live:
            stream = rng.choice(live)
            try:
                stream[2].append(sut.as_tuple(next(stream[1]), rm.names))
            except StopIteration:
                live.remove(stream)
            require(len(stream[2]) <= total, 'too many solutions')
        for n, _, got in streams:
            expected = total if n is None else min(n, total)
            require(len(got) == expected, 'wrong number of solutions under a limit while other solves are under way', limit=n,
                    total=total, got=len(got), limits=limits)
            require(set(got) <= set(want) and len(set(got)) == len(got), 'a wrong or repeated solution under a limit')
            obs.count('woven_streams')
    if total > 1:
        obs.nontrivial()


register(Check(
    'S04', 'sequences of 3-6 solves on one solver with limits 0, 1, 2, half, total-1, total, total+1, none and INFINITY, '
           'set in the constructor, by attribute and per call; counts, prefixes and interruption are compared with the '
           'unlimited stream',
    gen_s04, run_s04, quick=9000, thorough=150000,
    need={'woven_streams': 2000, 'limited_solves': 5000, 'limit_reached': 2000, 'limit_not_reached': 1500, 'limit_equals_total': 500}))


# ------------------------------------------------------------------ clocked models (S05, S06, O04)
def gen_clocked(rng, maxspace=200, maxvars=4):
    """A model some of whose constraints let time pass when evaluated (never at set-up: two variables or more)."""
    spec = ref.gen_model(rng, maxspace=maxspace, maxvars=maxvars, minvars=2, user=False, awkward=0, empty=0.02)
    names = names_of(spec)
    for _ in range(rng.randint(1, 3)):
        vs = rng.sample(names, rng.randint(2, min(3, len(names))))
        if rng.random() < 0.5:
            f = ['ge', ['abs', ['add', ['v', vs[0]], ['v', vs[1]]]], ['c', 0]]
        else:
            f = ref.FormulaGen(rng, vs, total=True).relation(1)
        spec['cons'].insert(rng.randrange(len(spec['cons']) + 1), ['user', f, sorted(set(vs) | set(ref.variables(f)))])
    return spec


class Ticker:
    """Evaluations of the probes: each takes `step` ticks of virtual time (a power of two fraction of a second)."""
    def __init__(self, step):
        self.step, self.evals, self.searching = step, 0, 0.0
        self.hook = None

    def __call__(self, con, substitution):
        self.evals += 1
        self.searching += self.step
        CLOCK.advance(self.step)
        if self.hook:
            self.hook()


def gen_s05(rng, i, tier):
    steps = []
    for _ in range(rng.randint(2, 5)):
        steps.append([rng.choice(['own', 'own', 'call', 'call', 'both']),
                      rng.choice(['none', 'inf', 'zero', 'frac', 'frac', 'frac', 'just_under', 'exact', 'over', 'mid']),
                      rng.randrange(1, 64), rng.choice([0, 0, 1000.0, 0.5]), rng.choice(['none', 'inf', 'frac', 'over'])])
    case = {'spec': gen_clocked(rng), 'cfg': [rng.choice(DETERMINISTIC), rng.random() < 0.6], 'steps': steps,
            'tick': rng.choice([0.25, 1.0, 0.0009765625, 64.0])}
    if rng.random() < 0.3:
        # an optimization, in which it takes time to compare two values of the objective
        if rng.random() < 0.6:
            case['spec'] = ref.gen_model(rng, maxspace=60, maxvars=2, user=False, awkward=0, empty=0.02, maxcons=2, domain_len=20, shapes=False)
        up = rng.random() < 0.8
        names = names_of(case['spec'])
        for v in case['spec']['vars']:
            if up and v[2] in ('list', 'tuple', 'gen', 'iter') and all(isinstance(x, int) for x in v[1]):
                v[1].sort()
        case['opt'] = [rng.choice('MMMm'), rng.sample(names, rng.randint(1, len(names)))]
    return case


def slow_objective(s, mm, variables, tick):
    """An objective whose values take time to compare, and nothing else."""
    def slow(op):
        def compare(a, b):
            tick(None, None)
            return getattr(int, op)(a, b)
        return compare
    Value = type('Value', (int,), dict({op: slow(op) for op in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__')},
                                       __hash__=int.__hash__))

    class Slow(s.expression.Expression):
        def free_vars(self, substitution):
            return (v.name for v in variables if v.name not in substitution)

        def evaluate(self, substitution):
            return Value(sum(v.evaluate(substitution) for v in variables))

        def equals(self, other):
            return self is other

        def py_expr(self):
            raise NotImplementedError()
    return (s.objective.Minimize if mm == 'm' else s.objective.Maximize)(Slow())


def run_s05(case, obs):
    s = sut.S()
    INF = s.utils.INFINITY
    spec = case['spec']
    tick = Ticker(case['tick'])
    b = sut.Built(spec, log=tick)
    rm = ref.RefModel(spec)
    solver = sut.make_solver(case['cfg'])

    def one(solver, idle, timeout, kw):
        start_search, start_evals = tick.searching, tick.evals
        state = {'exceeded_at': None, 'yields_after': 0}

        def hook():
            if timeout is not None and state['exceeded_at'] is None and tick.searching - start_search > timeout:
                state['exceeded_at'] = tick.evals
        tick.hook = hook
        out = []
        if case.get('opt'):
            mm, vs = case['opt']
            stream = (o.solution for o in solver.optimize(b.model, slow_objective(s, mm, [b.var[n] for n in vs], tick), **kw))
        else:
            stream = solver.solve(b.model, **kw)
        for sol in stream:
            if state['exceeded_at'] is not None:
                state['yields_after'] += 1
            out.append(sut.as_tuple(sol, rm.names))
            require(len(out) <= cap_of(rm), 'too many solutions')
            CLOCK.advance(idle)
        tick.hook = None
        state['evals_after'] = 0 if state['exceeded_at'] is None else tick.evals - state['exceeded_at']
        return out, tick.searching - start_search, state
    full, total_time, _ = one(sut.make_solver(case['cfg']), 0, None, {})
    maxdom = max([len(v[1]) for v in spec['vars']])
    ncons = sum(c[0] == 'user' for c in spec['cons']) + (1 if case.get('opt') else 0)
    own = None
    if case.get('opt') and total_time:
        obs.count('slow_optimizations')

    def number(kind, k):
        return {'none': None, 'inf': INF, 'zero': 0.0, 'frac': total_time * k / 64, 'mid': total_time / 2,
                'just_under': max(0.0, total_time - case['tick'] / 2), 'exact': total_time,
                'over': total_time + case['tick'] * k}[kind]
    for how, kind, k, idle, kind2 in case['steps']:
        value = number(kind, k)
        kw = {}
        if how == 'own':
            solver.timeout = own = value
            effective = value
        elif how == 'call':
            kw['timeout'] = effective = value
        else:
            solver.timeout = own = number(kind2, k)
            kw['timeout'] = effective = value
        timeout = None if effective is None or effective is INF else effective
        got, spent, state = one(solver, idle, timeout, kw)
        stats = solver.get_stats()
        obs.count('timed_solves' if timeout is not None else 'untimed_solves')
        require(got == full[:len(got)], 'a timed solve is not the beginning of the untimed one', expected=full[:5],
                got=got[:5])
        if timeout is None or total_time <= timeout:
            obs.count('below_timeout')
            require(got == full and stats.interrupt is None, 'a solve that stays below its timeout is affected',
                    timeout=timeout, needs=total_time, idle=idle, interrupt=stats.interrupt,
                    solutions=[len(got), len(full)], how=how, own=repr(own))
        else:
            obs.count('timeout_exceeded')
            require(state['exceeded_at'] is not None, 'the search stopped before its timeout', timeout=timeout,
                    spent=spent, needs=total_time, idle=idle, interrupt=stats.interrupt)
            if stats.interrupt is None:
                require(got == full, 'a solve cut by its timeout reports no interruption', timeout=timeout,
                        spent=spent, needs=total_time, solutions=[len(got), len(full)])
                obs.count('ended_by_itself_in_the_last_step')
            else:
                require(stats.interrupt == 'timeout', 'wrong interruption', interrupt=stats.interrupt)
                obs.count('interrupted')
            require(state['yields_after'] <= 1, 'more than one solution after the timeout', timeout=timeout,
                    after=state['yields_after'])
            require(state['evals_after'] <= 2 * maxdom * ncons, 'the search goes on after its timeout',
                    timeout=timeout, evaluations_after=state['evals_after'], allowed=2 * maxdom * ncons)
            obs.peak('evaluations_after_timeout', state['evals_after'])
    if total_time > 0 and full:
        obs.nontrivial()


register(Check(
    'S05', 'models with constraints that let virtual time pass when evaluated, timeouts placed at fractions of the '
           'untimed search time (also exactly at, just under and over it), on the solver and per call, with and without '
           'idle consumers; optimizations whose objective values take time to compare; monitors count evaluations and solutions after the timeout is exceeded',
    gen_s05, run_s05, quick=12000, thorough=200000, virtual_clock=True,
    need={'slow_optimizations': 800, 'timeout_exceeded': 3000, 'interrupted': 2500, 'below_timeout': 2500, 'untimed_solves': 500}))


# ------------------------------------------------------------------ S06
def gen_s06(rng, i, tier):
    models = [gen_clocked(rng, maxspace=80) for _ in range(rng.randint(1, 2))]
    steps = []
    for _ in range(rng.randint(3, 8)):
        steps.append([rng.choice(['complete', 'complete', 'limit', 'limit', 'timeout', 'timeout', 'abandon', 'unsolvable', 'empty',
                                  'optimize', 'optimal', 'both']),
                      rng.randrange(len(models)), rng.randrange(1, 64), rng.choice([0, 0.5, 300.0]),
                      rng.choice('mM'), rng.random() < 0.5])
    return {'models': models, 'cfg': sut.gen_cfg(rng), 'steps': steps, 'tick': rng.choice([0.25, 1.0, 0.0078125])}


def run_s06(case, obs):
    s = sut.S()
    tick = Ticker(case['tick'])
    built = [sut.Built(m, log=tick) for m in case['models']]
    rms = [ref.RefModel(m) for m in case['models']]
    cfg = case['cfg']
    totals = []
    for b, rm in zip(built, rms):
        t0 = tick.searching
        want = rm.solutions()
        got = sut.collect(sut.make_solver(['ORDERED', cfg[1]]).solve(b.model), rm.names, cap_of(rm))
        require(sorted(got) == sorted(want), 'the reference solve is wrong')
        totals.append((len(want), tick.searching - t0))
    solver = sut.make_solver(cfg)
    wrapped = s.solver.ModelSolver(model=built[0].model, solver=solver)
    endings = set()
    for what, k, n, idle, mm, percall in case['steps']:
        b, rm = built[k], rms[k]
        total, total_time = totals[k]
        kw = {}
        solver.limit = solver.timeout = None
        limit = timeout = None
        objective = None
        model = b.model
        if what in ('limit', 'both', 'optimize', 'optimal') and (what == 'limit' or n % 2):
            limit = n % (total + 2)
        if what in ('timeout', 'both') or (what in ('optimize', 'optimal') and n % 3 == 0):
            timeout = total_time * n / 64
        if percall:
            kw = {'limit': limit, 'timeout': timeout}
        else:
            solver.limit, solver.timeout = limit, timeout
        if what == 'unsolvable':
            model.set_solvable(False)
        elif what == 'empty':
            model = s.model.Model()
            rm = None
        start = tick.searching
        yields = 0
        if what in ('optimize', 'optimal'):
            kind = s.objective.Minimize if mm == 'm' else s.objective.Maximize
            obj = kind(sum(b.var.values()) + 0 if len(b.var) > 1 else +next(iter(b.var.values())))
        if what == 'optimal':
            res = solver.optimal_solution(model, obj, **kw)
            yields = None
        else:
            gen = solver.optimize(model, obj, **kw) if what == 'optimize' else solver.solve(model, **kw)
            for sol in gen:
                yields += 1
                require(yields <= (cap_of(rm) if rm else 1), 'too many solutions')
                CLOCK.advance(idle)
                if what == 'abandon' and yields >= 1 + n % 3:
                    gen.close()
                    break
        if what == 'unsolvable':
            model.set_solvable(True)
        CLOCK.advance(idle)
        spent = tick.searching - start
        for stats in (solver.get_stats(), wrapped.get_stats()):
            obs.count('statistics_checked')
            if yields is not None:
                require(stats.count == yields, 'the statistics count other solutions than were yielded', count=stats.count,
                        yielded=yields, step=what)
            require(abs(stats.elapsed - spent) < 1e-6, 'the elapsed time is not the time spent searching',
                    elapsed=stats.elapsed, searching=spent, step=what, limit=limit, timeout=timeout, idle=idle,
                    yielded=yields, interrupt=stats.interrupt)
            if limit is not None and yields is not None and yields >= limit and not (limit == 0 and total == 0):
                expected = ['limit']
            elif timeout is not None and spent > timeout:
                expected = ['timeout'] if what != 'abandon' else ['timeout', None]
                if what in ('complete', 'unsolvable', 'empty', 'limit', 'abandon'):
                    expected.append(None)
                if what in ('timeout', 'both', 'optimize', 'optimal'):
                    expected.append(None if (yields is None or what == 'optimize' or yields == total) else 'timeout')
                if yields is None:
                    expected += ['limit']
            elif limit == 0 and total == 0:
                expected = [None, 'limit']
            elif yields is None and limit is not None:
                expected = [None, 'limit']
            else:
                expected = [None]
            require(stats.interrupt in expected, 'wrong interruption', interrupt=stats.interrupt, expected=expected,
                    step=what, limit=limit, timeout=timeout, spent=spent, yielded=yields, total=total)
        endings.add((what, stats.interrupt))
        obs.count('ending_{}_{}'.format(what, stats.interrupt))
    if len(endings) > 1:
        obs.nontrivial()


register(Check(
    'S06', 'sequences of 3-8 solves and optimizations on one solver, ending complete, by limit, by timeout, abandoned, on '
           'an unsolvable or a variable-free model, under virtual time spent by constraints and by the consumer; count, '
           'elapsed (exact) and interruption are checked after each; non-trivial: two kinds of ending in one history',
    gen_s06, run_s06, quick=10500, thorough=150000, virtual_clock=True,
    need={'statistics_checked': 15000, 'ending_complete_None': 1000, 'ending_limit_limit': 800,
          'ending_timeout_timeout': 700, 'ending_abandon_None': 400}))


# ------------------------------------------------------------------ S07
def gen_passing(rng):
    """Models of one shape, alive one at a time: the next may be at the address of the one before."""
    first = any_model(rng, maxspace=60, maxvars=3, user=False)
    specs = []
    for _ in range(rng.randint(4, 12)):
        spec = json.loads(json.dumps(first))
        how = rng.choice(['values', 'values', 'constraint', 'both', 'same', 'parameters'])
        if how in ('values', 'both'):
            for v in spec['vars']:
                if v[2] != 'bool' and rng.random() < 0.7:
                    d = rng.choice([1, -1, 2, 7])
                    v[1] = [x + d for x in v[1]]
        if how in ('constraint', 'both') and spec['cons']:
            k = rng.randrange(len(spec['cons']))
            spec['cons'][k] = ref.gen_constraint(rng, spec['vars'], [p[0] for p in spec['params']], user=False, consts=False)
        if how == 'parameters':
            for p in spec['params']:
                p[1] += 1
        extra = ref.gen_constraint(rng, spec['vars'], [p[0] for p in spec['params']], user=False, consts=False) if rng.random() < 0.3 else None
        specs.append([spec, rng.choice(['', '', 'm', 'M']), extra, rng.randrange(2)])
    return {'passing': specs, 'compile': [rng.random() < 0.6, rng.random() < 0.6]}


def run_passing(case, obs):
    s = sut.S()
    solvers = [sut.make_solver(['GROUPS', c], limit=None) for c in case['compile']]

    def one(spec, opt, extra, which):
        rm = ref.RefModel(spec)
        want = rm.solutions([extra] if extra else [])
        b = sut.Built(spec)
        kw = {'additional_constraints': [b.constraint(extra)]} if extra else {}
        got = sut.collect(solvers[which].solve(b.model, **kw), rm.names, cap_of(rm))
        require(sorted(got) == sorted(want), 'a solver used on another model before yields other solutions', spec=spec, extra=extra,
                lost=sorted(set(want) - set(got))[:3], extra_solutions=sorted(set(got) - set(want))[:3])
        if opt:
            f = ['add', ['mul', ['c', 3], ['v', rm.names[0]]], ['v', rm.names[-1]]]
            obj = (s.objective.Minimize if opt == 'm' else s.objective.Maximize)(sut.build_expr(f, b.var, b.par))
            best = solvers[which].optimal_solution(b.model, obj, **kw)
            g = ref.fn(f)
            values = [g(dict(zip(rm.names, t)), {}) for t in want]
            if not want:
                require(best.solution is None, 'an optimum of a model without solution', spec=spec)
            else:
                t = None if best.solution is None else sut.as_tuple(best.solution, rm.names)
                require(t in want and g(best.solution, {}) == (min(values) if opt == 'm' else max(values)),
                        'a solver used on another model before finds another optimum', spec=spec, got=repr(best), opt=opt)
        obs.count('passing_models')
        obs.see('address', id(b.model))
        return bool(want)
    for x in case['passing']:
        if one(*x):
            obs.nontrivial()


def gen_s07(rng, i, tier):
    if rng.random() < 0.04:
        return gen_passing(rng)
    clocked = rng.random() < 0.3
    if clocked:
        models = [gen_clocked(rng, maxspace=60) for _ in range(rng.randint(1, 2))]
    else:
        models = [any_model(rng, maxspace=120, maxvars=4, user=False) for _ in range(rng.randint(1, 3))]
    streams = []
    for _ in range(rng.randint(2, 5)):
        timeout = rng.choice([None, rng.randrange(1, 64)]) if clocked else None
        streams.append({'timeout': timeout, 'model': rng.randrange(len(models)), 'solver': rng.randrange(2), 'policy': rng.choice(sut.POLICIES),
                        'limit': rng.choice([None, None, None, 1, 3]), 'opt': rng.choice([None, None, None, 'm', 'M']),
                        'extra': rng.random() < 0.25})
    script = []
    for _ in range(rng.randint(10, 80)):
        r = rng.random()
        script.append(['next', rng.randrange(len(streams)), rng.choice(['', '', 'clear', 'set', 'junk'])] if r < 0.93
                      else ['close', rng.randrange(len(streams))] if r < 0.96 else ['restart', rng.randrange(len(streams))])
    extras = []
    for m in models:
        extras.append(ref.gen_constraint(rng, m['vars'], [p[0] for p in m['params']], user=False, consts=False))
    return {'models': models, 'streams': streams, 'script': script, 'compile': [rng.random() < 0.6, rng.random() < 0.6],
            'extras': extras, 'finish': rng.random() < 0.8, 'idle': rng.choice([0, 0, 0.5, 100.0])}


def snapshot_model(b):
    m = b.model
    listing = [(n, tuple(i.domain)) for n, i in m.variables().items() if i.domain is not None]
    pars = [(n, i.variable.value) for n, i in m.variables().items() if i.domain is None]
    return listing, pars, [id(c) for c in m.constraints()], [repr(c) for c in m.constraints()], bool(m.solvable())


def run_s07(case, obs):
    if 'passing' in case:
        return run_passing(case, obs)
    s = sut.S()
    tick = Ticker(0.25)
    built = [sut.Built(m, log=tick) for m in case['models']]
    rms = [ref.RefModel(m) for m in case['models']]
    before = [snapshot_model(b) for b in built]
    solvers = [sut.make_solver(['GROUPS', c]) for c in case['compile']]
    extra_cons = [b.constraint(x) for b, x in zip(built, case['extras'])]

    def start(st, b, solver, extra, timeout=None):
        kw = {'limit': st['limit'], 'var_selection_policy': sut.policy(st['policy'])}
        if timeout is not None:
            kw['timeout'] = timeout
        if st['extra']:
            kw['additional_constraints'] = [extra]
        if st['opt']:
            kind = s.objective.Minimize if st['opt'] == 'm' else s.objective.Maximize
            obj = kind(+next(iter(b.var.values())) + sum(b.var.values()))
            return solver.optimize(b.model, obj, **kw)
        return solver.solve(b.model, **kw)

    def content(item, st):
        return item.solution if st['opt'] else item
    alone, timeouts = [], []
    for st in case['streams']:
        m = case['models'][st['model']]
        b = sut.Built(m, log=tick)
        solver = sut.make_solver(['GROUPS', case['compile'][st['solver']]])
        out = []
        timeouts.append(None)
        if st['timeout'] is not None and st['policy'] != 'RANDOM':
            # a fraction of the time the stream needs
            at = tick.searching
            for item in start(st, b, solver, b.constraint(case['extras'][st['model']])):
                pass
            timeouts[-1] = (tick.searching - at) * st['timeout'] / 64
            obs.count('streams_with_timeout')
        for item in start(st, b, solver, b.constraint(case['extras'][st['model']]), timeouts[-1]):
            out.append(sut.as_tuple(content(item, st), rms[st['model']].names))
            require(len(out) <= cap_of(rms[st['model']]), 'too many solutions')
        alone.append(out)

    class Stream:
        pass
    live = []
    for st in case['streams']:
        x = Stream()
        x.gen, x.got, x.state = None, [], 'new'
        live.append(x)

    def finish_check(k, complete):
        st, x = case['streams'][k], live[k]
        if st['policy'] == 'RANDOM':
            if st['opt']:
                return          # the path of an optimization depends on the order
            ok = set(x.got) <= set(alone[k] if not st['limit'] else all_of(k)) and len(set(x.got)) == len(x.got) and (
                not complete or len(x.got) == len(alone[k]))
        else:
            ok = x.got == alone[k][:len(x.got)] and (not complete or x.got == alone[k])
        require(ok, 'a solve yields something else than it does alone', stream=st, complete=complete, alone=alone[k][:6],
                got=x.got[:6], counts=[len(alone[k]), len(x.got)])

    def all_of(k):
        st = case['streams'][k]
        return rms[st['model']].solutions([case['extras'][st['model']]] if st['extra'] else [])
    overlap = False
    for op in case['script']:
        k = op[1]
        st, x = case['streams'][k], live[k]
        if op[0] == 'close':
            if x.gen is not None:
                x.gen.close()
                finish_check(k, False)
                x.state = 'closed'
                obs.count('abandoned')
        elif op[0] == 'restart':
            if x.gen is not None:
                finish_check(k, x.state == 'done')
                x.gen = None            # dropped without closing
                x.got, x.state = [], 'new'
                obs.count('restarted')
        elif x.state in ('new', 'open'):
            if x.gen is None:
                x.gen = start(st, built[st['model']], solvers[st['solver']], extra_cons[st['model']], timeouts[k])
            x.state = 'open'
            if sum(y.state == 'open' for y in live) > 1:
                overlap = True
            try:
                sol = content(next(x.gen), st)
            except StopIteration:
                x.state = 'done'
                finish_check(k, True)
                obs.count('completed_streams')
                continue
            obs.count('interleaved_steps')
            CLOCK.advance(case['idle'])
            x.got.append(sut.as_tuple(sol, rms[st['model']].names))
            finish_check(k, False)
            if op[2]:
                obs.count('yielded_solutions_changed')
                if op[2] == 'clear':
                    sol.clear()
                elif op[2] == 'set':
                    for n in list(sol):
                        sol[n] = 12345
                else:
                    sol['junk'] = 1
                    sol.pop(next(iter(sol)))
    if case['finish']:
        for k, (st, x) in enumerate(zip(case['streams'], live)):
            if x.state == 'open':
                for item in x.gen:
                    x.got.append(sut.as_tuple(content(item, st), rms[st['model']].names))
                    require(len(x.got) <= cap_of(rms[st['model']]), 'too many solutions')
                finish_check(k, True)
                obs.count('completed_streams')
    for b, rm, snap in zip(built, rms, before):
        now = snapshot_model(b)
        require(now == snap, 'solving changed the model', before=snap, after=now)
        want = rm.solutions()
        got = sut.collect(solvers[0].solve(b.model, limit=None), rm.names, cap_of(rm))
        require(sorted(got) == sorted(want), 'solving changed the solutions of the model',
                missing=sorted(set(want) - set(got))[:3], extra=sorted(set(got) - set(want))[:3])
        obs.count('models_rechecked')
    obs.see('script', case['script'])
    if overlap:
        obs.nontrivial()


register(Check(
    'S07', 'two to five solve and optimize generators on shared models and solvers, advanced in random interleavings, '
           'abandoned, restarted, some with timeouts under virtual time, their solutions cleared or overwritten by the consumer, and series of models of one shape, alive one at a time, solved and optimized with '
           'the same solvers; each stream is compared with '
           'the one obtained alone, and model snapshots before and after; non-trivial: two generators open at once',
    gen_s07, run_s07, quick=7500, thorough=120000, virtual_clock=True,
    need={'streams_with_timeout': 500, 'interleaved_steps': 20000, 'yielded_solutions_changed': 6000, 'abandoned': 600, 'restarted': 600,
          'completed_streams': 2500, 'passing_models': 1000}))


# ------------------------------------------------------------------ S08
def gen_s08(rng, i, tier):
    spec = any_model(rng, maxspace=400, maxvars=5, minvars=2, maxcons=4, user=False, awkward=0)
    names = names_of(spec)
    if len(names) < 2:
        spec['vars'].append(['zz', [0, 1, 2], 'range'])
        names = names_of(spec)
    spec['cons'] = [c for c in spec['cons'] if c[0] != 'bool']
    if rng.random() < 0.5:
        n = rng.choice(names)
        dom = [v for v in spec['vars'] if v[0] == n][0][1]
        if dom:
            spec['cons'].append(['expr', [rng.choice(['ne', 'le', 'ge']), ['v', n], ['c', rng.choice(dom)]]])
    probes = []
    for k, n in enumerate(names):
        for _ in range(rng.choice([1, 1, 2])):
            others = [x for x in names if x != n]
            probes.append(sorted([n] + rng.sample(others, rng.randint(1, min(2, len(others))))))
    return {'spec': spec, 'probes': probes, 'policy': rng.choice(['ORDERED', 'REVERSED']), 'compile': rng.random() < 0.5,
            'first': rng.random() < 0.5, 'limit': rng.choice([None, None, 5]),
            'objectives': [] if rng.random() < 0.65 else
            [[rng.choice('mM'), [[n, rng.choice([1, 1, 2, -1, -3])] for n in rng.sample(names, rng.choice([1, 1, min(2, len(names))]))]]
             for _ in range(rng.choice([1, 1, 2]))]}


def run_s08(case, obs):
    spec = case['spec']
    rm = ref.RefModel(spec)
    names = rm.names
    order = names if case['policy'] == 'ORDERED' else list(reversed(names))
    rank = {n: k for k, n in enumerate(order)}
    domains = dict(zip(names, rm.domains))
    reduced = {}
    relations = []
    for (vs, p), c in zip(rm.cons, spec['cons']):
        vs = list(vs)
        if len(vs) == 1:
            reduced.setdefault(vs[0], []).append((c, p))
        elif c[0] == 'ad':
            for a, bb in itertools.combinations(vs, 2):
                relations.append((max(rank[a], rank[bb]), [a, bb], (lambda env, a=a, bb=bb: env[a] != env[bb]), c))
        else:
            relations.append((max(rank[v] for v in vs), vs, p, c))
    all_names = set(names)
    measure = lambda terms, env: sum(k * env[n] for n, k in terms)
    best = []                     # of each objective, the value at the last solution
    found = {}                    # the last solution

    def monitor(con, sub):
        obs.count('evaluations_monitored')
        mine = con.vars()
        bound = [n for n in sub if n in all_names]
        missing = set(mine) - set(bound)
        require(not missing, 'a constraint is evaluated before all its variables are bound', constraint=sorted(mine),
                missing=sorted(missing))
        for n in mine:
            require(sub[n] in domains[n], 'a constraint is evaluated with a value outside a domain', variable=n,
                    value=sub[n], domain=domains[n])
        last = max(rank[n] for n in bound)
        for n in bound:
            if rank[n] < last:
                for c, p in reduced.get(n, ()):
                    obs.count('unary_checked')
                    require(p({n: sub[n]}), 'a later variable is tried although an earlier value is outside its reduced '
                            'domain', earlier=n, value=sub[n], constraint=c, tried=order[last])
        for r, vs, p, c in relations:
            if r < last and all(v in sub for v in vs):
                obs.count('earlier_constraints_checked')
                require(p(sub), 'a later variable is tried although the earlier ones violate a constraint',
                        constraint=c, assignment={n: sub[n] for n in order if n in sub}, tried=order[last],
                        evaluated=sorted(mine))
        # the branch of the last solution itself was open before it was found: it may still be tried
        newly = best and any(n in sub and sub[n] != found[n] for n in order[:last])
        for (mm, terms), v in zip(case['objectives'], best):
            if newly and max(rank[n] for n, _ in terms) < last:
                obs.count('bounds_checked')
                now = measure(terms, sub)
                require(now < v if mm == 'm' else now > v, 'a later variable is tried although the earlier ones already decide that '
                        'the solution does not improve', objective=[mm, terms], best=v, value=now, tried=order[last])
    b = sut.Built(spec, cons=[])
    U = sut.user_constraint_class()
    probes = [U(vs, lambda env: True, monitor, tuple(vs)) for vs in case['probes']]
    if case['first']:
        for p in probes:
            b.model.add_constraint(p)
    # the model's own user-defined relations are monitored too
    b.log = monitor
    for k, c in enumerate(spec['cons']):
        if c[0] == 'expr' and len(ref.variables(c[1])) > 1 and k % 2:
            b.model.add_constraint(b.constraint(['user', c[1], sorted(ref.variables(c[1]))]))
        else:
            b.add(c)
    if not case['first']:
        for p in probes:
            b.model.add_constraint(p)
    before = obs.counters['earlier_constraints_checked']
    solver = sut.make_solver([case['policy'], case['compile']], limit=case['limit'])
    if case['objectives']:
        s = sut.S()
        got = []
        for o in solver.optimize(b.model, [(s.objective.Minimize if mm == 'm' else s.objective.Maximize)(
                sum((b.var[n] * k for n, k in terms), s.expression.Const(0))) for mm, terms in case['objectives']]):
            got.append(sut.as_tuple(o.solution, names))
            best[:] = [measure(terms, o.solution) for _, terms in case['objectives']]
            found.update(o.solution)
            require(len(got) <= cap_of(rm), 'endless optimization')
    else:
        got = sut.collect(solver.solve(b.model), names, cap_of(rm))
    want = rm.solutions()
    require(set(got) <= set(want), 'a wrong solution')
    obs.count('searches')
    if obs.counters['earlier_constraints_checked'] > before and len(want) < rm.space():
        obs.nontrivial()


register(Check(
    'S08', 'searches in declared or reversed order with user-defined probe constraints on every variable; every '
           'evaluation is checked online: its variables are bound to domain values and no constraint, all-different pair '
           'or one-variable reduction among the earlier variables is violated; non-trivial: earlier constraints were '
           'checked in a model where some assignments are not solutions',
    gen_s08, run_s08, quick=12000, thorough=150000,
    need={'bounds_checked': 20000, 'evaluations_monitored': 60000, 'earlier_constraints_checked': 60000, 'unary_checked': 5000}))


# ------------------------------------------------------------------ S09
def gen_s09_app(rng):
    kind = rng.choice(['graph', 'map', 'sudoku', 'nonogram', 'queens', 'cryptarithm'])
    how = {'graph': [rng.randint(6, 14), rng.randint(3, 5)], 'map': [rng.randint(5, 11)], 'sudoku': sorted(rng.sample(range(1, 10), rng.choice([4, 5]))),
           'nonogram': [rng.choice([4, 5, 6])], 'queens': [rng.choice([6, 7, 8])],
           'cryptarithm': [rng.choice(['A+B+C==D', 'A+B!=C', 'AB-C<D*E', 'A+B+7==1C'])]}[kind]
    return {'app': kind, 'how': how, 'cfg': sut.gen_cfg(rng), 'limit': rng.choice(['inf', 'inf', 'many']), 'take': rng.choice([1, 2, 5, 9])}


def run_s09_app(case, obs):
    import importlib
    s = sut.S()
    mod = lambda name: importlib.import_module('satisfy.' + name)
    kind, how = case['app'], case['how']
    kw = {'limit': s.utils.INFINITY if case['limit'] == 'inf' else 10**7, 'compile_constraints': case['cfg'][1]}
    if kind not in ('sudoku', 'nonogram', 'queens') or case['cfg'][0] in ('ORDERED', 'GROUPS', 'MIN_BOUND'):
        kw['var_selection_policy'] = sut.policy(case['cfg'][0])
    if kind == 'graph':
        import networkx
        app = mod('graph_labeling').GraphLabelingSolver(networkx.path_graph(how[0]), ['l{}'.format(k) for k in range(how[1])], **kw)
    elif kind == 'map':
        app = mod('tool.ascii_map_coloring').AsciiMapColoringSolver('AB' * (how[0] // 2) + 'A' * (how[0] % 2), **kw)
    elif kind == 'sudoku':
        app = mod('sudoku').SudokuSolver([[(v if v not in how else 0) for v in [(3 * r + r // 3 + c) % 9 + 1 for c in range(9)]]
                                          for r in range(9)], **kw)
    elif kind == 'nonogram':
        app = mod('nonogram').NonogramSolver({'rows': [[1]] * how[0], 'columns': [[1]] * how[0]}, **kw)
    elif kind == 'queens':
        app = mod('tool.queens').QueensSolver(how[0], **kw)
    else:
        app = mod('cryptarithm').CryptarithmSolver(how[0], **kw)
    model = app.model
    names = [n for n, info in model.variables().items() if info.domain is not None]
    others = list(model.constraints())
    widest = max(len(model.get_var_domain(n)) for n in names)
    found = set()

    def whole(env):
        if not any(c.unsatisfied(env) for c in others):
            found.add(tuple(env[n] for n in names))
        return True
    model.add_constraint(sut.user_constraint_class()(names, whole))
    stream = iter(app)
    require(not found, 'search before the first solution is requested', application=kind)
    taken = 0
    for k in range(case['take']):
        before = len(found)
        CLOCK.advance(1)
        require(len(found) == before, 'search between two requests', application=kind)
        if next(stream, None) is None:
            break
        taken += 1
        # the values of the last variable may be examined together
        require(taken <= len(found) <= taken - 1 + widest, 'an application does not deliver its solutions as they are found',
                application=kind, found=len(found), delivered=taken, widest=widest)
    require(taken, 'an application finds nothing', case=case)
    before = len(found)
    stream.close()
    require(len(found) == before, 'work after the consumer stopped', application=kind)
    obs.count('application_streams')
    obs.count('application_solutions', taken)


def gen_s09(rng, i, tier):
    if rng.random() < 0.06:
        return gen_s09_app(rng)
    n = rng.randint(12, 45)
    deg = rng.choice([1, 2, 3])
    degree = [0] * n
    edges = []
    for _ in range(n * deg):
        a, b = rng.sample(range(n), 2)
        if degree[a] < deg + 2 and degree[b] < deg + 2:
            degree[a] += 1
            degree[b] += 1
            edges.append([min(a, b), max(a, b), rng.choice(['user', 'user', 'expr', 'ad'])])
    d = max(degree) + 1 + rng.choice([0, 1, 3])
    return {'n': n, 'edges': edges, 'd': max(2, d), 'cfg': sut.gen_cfg(rng), 'take': rng.choice([1, 2, 5, 30]),
            'shuffle': rng.randrange(10**6), 'how': rng.choice(['solve', 'solve', 'modelsolver', 'limit', 'optimize', 'limited modelsolver']),
            'leaf': rng.random() < 0.5}


def run_s09(case, obs):
    if 'app' in case:
        return run_s09_app(case, obs)
    s = sut.S()
    n, d = case['n'], case['d']
    model = s.model.Model()
    rng = random.Random(case['shuffle'])
    names = ['v{}'.format(k) for k in range(n)]
    var = [model.add_int_variable(range(d), name=x) for x in names]
    state = {'evals': 0, 'budget': None}

    def log(con, sub):
        state['evals'] += 1
        if state['budget'] is not None and state['evals'] > state['budget']:
            raise Violation('the search does more work than the solutions taken need', evaluations=state['evals'],
                            taken=state['taken'], budget=state['budget'])
    U = sut.user_constraint_class()
    per_level = 0
    for a, b, kind in case['edges']:
        if kind == 'user':
            model.add_constraint(U([names[a], names[b]],
                                   lambda env, a=names[a], b=names[b]: env[a] != env[b], log))
        elif kind == 'expr':
            model.add_constraint(var[a] != var[b])
        else:
            model.add_all_different_constraint([var[a], var[b]])
    for a in range(n):          # a probe on every pair of neighbours in declaration order: always true
        b = (a + 1) % n
        model.add_constraint(U([names[a], names[b]], lambda env: True, log))
    cons = sum(k == 'user' for _, _, k in case['edges']) + n
    found = []                    # the solutions a constraint over all variables has seen
    leaf = case['leaf'] and case['how'] != 'optimize'
    if leaf:
        def whole(env):
            t = tuple(env[x] for x in names)
            if all(t[a] != t[b] for a, b, _ in case['edges']):
                found.append(t)
            return True
        model.add_constraint(U(list(names), whole, log))
        cons += 1
    one_pass = 2 * d * cons       # each constraint is checked at most once per value of its last variable
    state['taken'] = 0
    state['budget'] = 0
    solver = sut.make_solver(case['cfg'], limit=case['take'] if case['how'] == 'limit' else 10**6 if 'limited' in case['how'] else None)
    if case['how'].endswith('modelsolver'):
        gen = iter(s.solver.ModelSolver(model=model, solver=solver))
    elif case['how'] == 'optimize':
        # all values are 0: the first solution cannot be improved, but only an enormous search can tell
        gen = (o.solution for o in solver.optimize(model, s.objective.Maximize(sum(var) % 1)))
        case = dict(case, take=1)
        obs.count('optimizations')
    else:
        gen = solver.solve(model)
    require(state['evals'] == 0, 'search before the first solution is requested')
    seen = set()
    for k in range(case['take']):
        state['taken'] = k + 1
        state['budget'] = state['evals'] + 2 * one_pass
        try:
            sol = next(gen)
        except StopIteration:
            raise Violation('an enormous solution set is reported to end', taken=k)
        t = sut.as_tuple(sol, names)
        for a, b, _ in case['edges']:
            require(t[a] != t[b], 'a wrong solution')
        require(t not in seen, 'a repeated solution')
        seen.add(t)
        obs.count('solutions_taken')
        if leaf:
            # the values of the last variable may be examined together; apart from them nothing is found before it is asked for
            far = [u for u in set(found) - seen if sum(a != b for a, b in zip(t, u)) > 1]
            require(not far, 'a solution was found before the one delivered was requested', taken=k + 1, delivered=t, found=far[:1])
            require(t in found, 'a solution is delivered that a constraint over all variables has not seen')
            found[:] = found[-d:]
            obs.count('leaves_checked')
        at = state['evals']
        state['budget'] = at              # nothing may happen between requests
        CLOCK.advance(1)
        obs.peak('evaluations_for_one_solution', at)
    gen.close()
    require(state['evals'] == at, 'work after the consumer stopped')
    obs.count('evaluations_monitored', state['evals'])
    obs.count('streams')
    obs.peak('log10_of_space', int(n * len(str(d ** 10)) / 10))
    obs.nontrivial()


register(Check(
    'S09', 'graph-like models of 12-45 variables with more values than neighbours (no dead ends, up to about 10^40 '
           'assignments); monitors count the constraint evaluations made for each solution taken, before the first '
           'request, between requests and after closing; the same for the streams of the applications',
    gen_s09, run_s09, quick=6000, thorough=60000,
    need={'application_streams': 150, 'solutions_taken': 6000, 'evaluations_monitored': 100000, 'streams': 1000, 'optimizations': 400, 'leaves_checked': 5000}))


# ------------------------------------------------------------------ S10
def gen_s10(rng, i, tier):
    spec = any_model(rng, maxspace=300, maxvars=4)
    pn = [p[0] for p in spec['params']]
    extra = []
    for _ in range(rng.randint(0, 3)):
        r = rng.random()
        if r < 0.12:
            extra.append(['bool', rng.random() < 0.6])
        elif r < 0.3:
            extra.append(ref.gen_constraint(rng, spec['vars'], pn, consts=False, nvars=1, ad=False))
        else:
            extra.append(ref.gen_constraint(rng, spec['vars'], pn, consts=False))
    calls = []
    for _ in range(rng.randint(2, 4)):
        calls.append([rng.choice(['solve', 'solve', 'optimize', 'optimal', 'plain', 'plainopt', 'abandon']), sut.gen_cfg(rng),
                      rng.choice(['list', 'tuple', 'gen', 'list']), rng.choice('mM'), rng.random() < 0.5,
                      rng.choice([None, None, None, 1, 2, 3, 5])])
    g = ref.FormulaGen(rng, names_of(spec), pn, total=True)
    return {'spec': spec, 'extra': extra, 'calls': calls, 'objective': g.any(2), 'second': g.any(2),
            'nobj': [rng.choice([1, 1, 1, 2]) for _ in calls]}


def run_s10(case, obs):
    s = sut.S()
    spec = case['spec']
    rm = ref.RefModel(spec)
    base, both = rm.solutions(), rm.solutions(case['extra'])
    b = sut.Built(spec)
    before = snapshot_model(b)
    kept = [b.constraint(c) for c in case['extra']]
    par = dict(spec['params'])
    values = lambda sols: [ref.ev(case['objective'], dict(zip(rm.names, t)), par) for t in sols]
    solvers = {}
    for (what, cfg, box, mm, fresh, limit), nobj in zip(case['calls'], case['nobj']):
        objs = [b.constraint(c) for c in case['extra']] if fresh else kept
        boxed = {'list': lambda: list(objs), 'tuple': lambda: tuple(objs), 'gen': lambda: (o for o in objs)}[box]()
        key = tuple(cfg)
        solver = solvers.setdefault(key, sut.make_solver(cfg))
        want = base if what in ('plain', 'plainopt') else both
        kw = {} if what in ('plain', 'plainopt') else {'additional_constraints': boxed}
        kind = s.objective.Minimize if mm == 'm' else s.objective.Maximize
        if what in ('solve', 'plain', 'abandon'):
            gen = solver.solve(b.model, **kw)
            if what == 'abandon':
                got = []
                for sol in itertools.islice(gen, 1):
                    got.append(sut.as_tuple(sol, rm.names))
                gen.close()
                require(set(got) <= set(want), 'a solution violates an additional constraint', got=got)
                continue
            got = sut.collect(gen, rm.names, cap_of(rm))
            if limit is not None:
                # the limit counts the solutions that satisfy them
                stats = solver.get_stats()
                few = sut.collect(solver.solve(b.model, limit=limit, **({} if not kw else {'additional_constraints': list(objs)})), rm.names,
                                  cap_of(rm))
                require(len(few) == min(limit, len(want)) and set(few) <= set(want) and len(set(few)) == len(few),
                        'wrong solutions under a limit with additional constraints', extra=case['extra'], limit=limit, got=few[:5],
                        counts=[len(few), len(want)], cfg=cfg)
                require(solver.get_stats().count == len(few) and stats.count == len(got), 'the statistics count other solutions',
                        counts=[solver.get_stats().count, len(few), stats.count, len(got)])
                obs.count('limited')
            require(sorted(got) == sorted(want), 'wrong solutions {} additional constraints'.format(
                'after a solve with' if what == 'plain' else 'with'), extra=case['extra'],
                    missing=sorted(set(want) - set(got))[:4], unexpected=sorted(set(got) - set(want))[:4], cfg=cfg)
            obs.count('solves_' + what)
        else:
            obj = kind(sut.build_expr(case['objective'], b.var, b.par))
            if nobj == 2:
                obj = [obj, s.objective.Maximize(sut.build_expr(case['second'], b.var, b.par))]
            if what == 'optimize':
                got = sut.collect_opt(solver.optimize(b.model, obj, **kw), rm.names, cap_of(rm))
                last = got[-1] if got else None
                require(set(got) <= set(want), 'an optimization yields a solution violating an additional constraint',
                        got=got[:3], extra=case['extra'])
            else:
                res = solver.optimal_solution(b.model, obj, **kw)
                last = None if res.solution is None else sut.as_tuple(res.solution, rm.names)
                require(bool(res.is_optimal) == bool(want), 'wrong optimality flag', result=repr(res))
            vals = values(want)
            if not want:
                require(last is None, 'a solution where there is none', got=last, extra=case['extra'])
            elif nobj == 2:
                # not dominated among the solutions that satisfy the additional constraints
                sign = -1 if mm == 'm' else 1
                pair = lambda t: (sign * ref.ev(case['objective'], dict(zip(rm.names, t)), par),
                                  ref.ev(case['second'], dict(zip(rm.names, t)), par))
                require(last in set(want), 'an optimum violating an additional constraint', got=last, extra=case['extra'])
                mine = pair(last)
                better = [t for t in want if all(x > y for x, y in zip(pair(t), mine))]
                require(not better, 'a dominated solution with additional constraints', got=last, better=better[:1])
                obs.count('two_objectives')
            else:
                best = min(vals) if mm == 'm' else max(vals)
                require(last in set(want) and values([last])[0] == best,
                        'wrong optimum {} additional constraints'.format('after' if what == 'plainopt' else 'with'),
                        got=last, best=best, objective=case['objective'], kind=mm, extra=case['extra'])
            obs.count('optimizations')
        now = snapshot_model(b)
        require(now == before, 'additional constraints changed the model', before=before, after=now)
    if case['extra'] and len(both) < len(base):
        obs.nontrivial()
        obs.count('cases_where_they_matter')
    if any(c == ['bool', False] for c in case['extra']):
        obs.count('false_without_variables')


register(Check(
    'S10', 'models with up to three additional constraints (none, one, several variables, all-different, user-defined, '
           'constant) passed as list, tuple or generator to solve, optimize and optimal_solution, mixed with plain calls '
           'on the same model; judged by enumeration; non-trivial: the additional constraints exclude a solution',
    gen_s10, run_s10, quick=10500, thorough=150000,
    need={'limited': 1500, 'solves_solve': 1500, 'solves_plain': 700, 'optimizations': 2000, 'cases_where_they_matter': 800,
          'false_without_variables': 100, 'two_objectives': 500}))
