"""E01..E06: expressions."""
import builtins
import datetime
import decimal
import fractions
import itertools
import math
import random

from vmon import ref, sut
from vmon.core import Check, Skip, Violation, register, require

NAMES = ['x', 'y', 'z', 'w']
PARS = ['p', 'q']


def value_pool(rng):
    return rng.choice([-7, -3, -2, -1, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 11, 10**15, -10**15,
                       257, 2**53 + 1, -2**64 - 1, 10**20 + 7] if rng.random() < 0.5 else [-3, -2, -1, 0, 1, 2, 3])


def assignments(rng, names, n):
    out = [{v: k for v in names} for k in (0, 1, -1)]
    out += [{v: i + 2 for i, v in enumerate(names)}]
    while len(out) < n:
        out.append({v: value_pool(rng) for v in names})
    return out


def objects(names, par):
    E = sut.S().expression
    return {n: E.Variable(n) for n in names}, {k: E.Parameter(k, v) for k, v in par.items()}


def expected(f, env, par):
    try:
        return ref.ev(f, env, par)
    except ref.Undefined:
        return None


def buildable(f, envs, par):
    """Some assignment makes every part of the formula defined, so building it must work too."""
    for env in envs:
        try:
            ref.ev(f, env, par, strict=True)
            return True
        except ref.Undefined:
            pass
    return False


# ------------------------------------------------------------------ exhaustive small formulas
LEAVES = [['v', 'x'], ['v', 'y'], ['p', 'p']] + [['c', n] for n in (-2, -1, 0, 1, 2, 3)] + \
         [['C', n] for n in (-2, -1, 0, 1, 2)]
BIN = list(ref.BINARY)


def small_formulas():
    for leaf in LEAVES:
        yield leaf
    for op in ref.UNARY:
        for a in LEAVES:
            yield [op, a]
    for op in BIN:
        for a, b in itertools.product(LEAVES, LEAVES):
            yield [op, a, b]


def nested_formulas():
    """op2(op1(a, b), c) and op2(c, op1(a, b)), and every unary around and inside every binary."""
    small = [['v', 'x'], ['v', 'y'], ['p', 'p'], ['c', -1], ['c', 2], ['C', 0], ['C', -2], ['C', 1]]
    unop = ref.UNARY
    for op1, op2 in itertools.product(BIN, BIN):
        for a, b, c in itertools.product(small[:2], [small[1], small[3], small[4]], [small[0], small[2], small[6]]):
            yield [op2, [op1, a, b], c]
            yield [op2, c, [op1, a, b]]
            yield [op2, c, [op1, b, a]]
    for u, op in itertools.product(unop, BIN):
        for a, b in itertools.product(small, small[:5]):
            yield [u, [op, a, b]]
            yield [op, [u, a], b]
            yield [op, b, [u, a]]
    for u, v in itertools.product(unop, unop):
        for a in small:
            yield [u, [v, a]]


def constant_chains():
    """((x op1 a) op2 b), and with the constant of op2 in front, for constants that divide, oppose and equal each other."""
    consts = [2, -2, 3, -1, 1, 7, 0, -5]
    for op1, op2, a, b in itertools.product(['add', 'sub', 'mul', 'div', 'mod'], ref.COMPARE + ('and', 'or'), consts[:6], consts):
        for first in ([op1, ['v', 'x'], ['c', a]], [op1, ['c', a], ['v', 'x']]):
            yield [op2, first, ['c', b]]
    consts = [1, -1, 2, -2, 3, -3, 4, 6, -6]
    ops = ['add', 'sub', 'mul', 'div', 'mod', 'pow']
    for op1, op2, a, b in itertools.product(ops, ops, consts, consts):
        if (op1 == 'pow' and not 0 < a < 4) or (op2 == 'pow' and not 0 < b < 4):
            continue
        yield [op2, [op1, ['v', 'x'], ['c', a]], ['c', b]]
        if op2 in ('sub', 'div', 'mod'):
            yield [op2, ['c', b], [op1, ['v', 'x'], ['c', a]]]


BATCH = 60


def enumerated(tier):
    forms = list(small_formulas()) + list(constant_chains()) + list(nested_formulas())
    if tier == 'quick':
        few = len(list(small_formulas())) + len(list(constant_chains()))
        forms = forms[:few] + forms[few::3]
    return [{'forms': forms[i:i + BATCH], 'par': {'p': v, 'q': 5}, 'enum': True}
            for i, v in zip(range(0, len(forms), BATCH), itertools.cycle([-3, 2, 0, -1, 4, 1]))]


def gen_forms(rng, i, tier, awkward=False):
    names, pars = list(NAMES), list(PARS)
    if rng.random() < 0.08:
        names = ['x{}'.format(k) for k in range(rng.randint(10, 30))]
    elif awkward:
        r = rng.random()
        if r < 0.35:
            names = rng.sample(ref.AWKWARD, 4)
        elif r < 0.5:
            names = rng.sample(ref.AWKWARD, 2) + ['x', 'p']
            pars = ['p1', 'sum']
            names = [n for n in names if n not in pars]
    par = {p: rng.choice([-4, -3, -2, -1, 0, 1, 2, 3, 7]) for p in pars}
    forms = []
    for _ in range(20):
        g = ref.FormulaGen(rng, names, pars, total=rng.random() < 0.5)
        r = rng.random()
        if r < 0.35:
            forms.append(g.chain(rng.choice([1, 2, 3])))
        elif r < 0.5:
            forms.append(g.relation(3))
        else:
            forms.append(g.any(rng.choice([2, 3, 4, 5])))
    return {'forms': forms, 'par': par, 'names': names, 'seed': rng.randrange(10**9)}


def prepared(case, obs, n=9):
    """Yield (formula, expression, assignments with a defined value) for each formula of a case."""
    import random
    rng = random.Random(case.get('seed', 0))
    par = case['par']
    for f in case['forms']:
        names = ref.variables(f)
        envs = assignments(rng, names, n)
        if not buildable(f, envs, par):
            obs.count('formulas_undefined')
            continue
        var, parobj = objects(names, par)
        e = sut.build_expr(f, var, parobj)
        pairs = []
        for env in envs:
            try:
                pairs.append((env, ref.ev(f, env, par)))
            except ref.Undefined:
                obs.count('assignments_undefined')
        obs.count('formulas')
        obs.peak('formula_size', ref.size(f))
        obs.see('formula', f)
        yield f, e, pairs, rng


def run_e01(case, obs):
    par = case['par']
    for f, e, pairs, rng in prepared(case, obs):
        for env, want in pairs:
            got = e.evaluate(dict(env))
            obs.count('evaluations_compared')
            require(got == want and bool(got) == bool(want), 'wrong value of a formula', formula=f, assignment=env,
                    params=par, expected=want, got=got, expression=repr(e))
            if rng.random() < 0.2:
                got = e.evaluate(dict(env, unrelated=5))
                require(got == want, 'an unrelated binding changes the value', formula=f, assignment=env,
                        expected=want, got=got)
        if pairs and ref.size(f) > 3:
            obs.nontrivial()


register(Check(
    'E01', 'formulas enumerated up to two nested operators over {x, y, parameter, small constants} and pairs of operators with constants that divide and oppose each other, plus random ones '
           '(long +/* chains with cancelling constants, n-ary sums, //, %, **, logic), each evaluated at up to 9 '
           'assignments against plain Python; a case is a batch of formulas, non-trivial if one has more than 3 nodes',
    lambda rng, i, tier: gen_forms(rng, i, tier), run_e01, quick=2800, thorough=60000,
    fixed=enumerated, need={'evaluations_compared': 40000, 'formulas': 8000}))


# ------------------------------------------------------------------ E02
def deep_formula(rng, n, names):
    f = ['v', names[0]]
    for _ in range(n):
        t = rng.choice([['c', rng.choice([1, 2, 3])], ['v', rng.choice(names)]])
        f = [rng.choice(['sub', 'mod', 'sub', 'lt', 'sub']), f, t if f[0] != 'mod' else ['c', 7]]
        if f[0] == 'mod':
            f[2] = ['c', rng.choice([5, 7, 1000])]
    return f


def gen_e02(rng, i, tier):
    if rng.random() < 0.03:
        names = ['x', 'y']
        return {'forms': [deep_formula(rng, rng.choice([60, 120, 190, 205, 240]), names)], 'par': {}, 'names': names,
                'seed': rng.randrange(10**9)}
    if rng.random() < 0.06:
        return {'values': [[rng.choice(list(VALUES)), rng.choice(list(VALUES)), rng.choice('cp'), rng.randrange(10**6)] for _ in range(6)]}
    if rng.random() < 0.05:
        return {'special': [[rng.choice(SPECIAL), rng.choice(WRAP), rng.randint(-5, 5), rng.randint(1, 6)] for _ in range(8)]}
    return gen_forms(rng, i, tier, awkward=True)


# expressions that cannot be turned into Python code: constants too long to be written in decimal, and operators of the user
# whose py_expr fails in any way or gives nonsense
HUGE = 10**5000 + 3
SPECIAL = ['huge', 'huge_par', 'ValueError', 'NotImplementedError', 'RecursionError', 'KeyError', 'TypeError', 'MemoryError', 'AttributeError',
           '(1 +', ')', '$', 'def f(): pass', 'x y']
WRAP = ['none', 'add', 'sum', 'abs', 'cmp', 'and', 'prod', 'pow']


def special_expr(kind, wrap):
    s = sut.S()
    E = s.expression
    x, y = E.Variable('x'), E.Variable('y')
    calls = []

    class Gcd(E.Expression):
        def free_vars(self, substitution):
            for n in ('x', 'y'):
                if n not in substitution:
                    yield n

        def evaluate(self, substitution):
            return math.gcd(substitution['x'], substitution['y'])

        def equals(self, other):
            return type(self) is type(other)

        def py_expr(self):
            calls.append(1)
            if kind.endswith('Error'):
                raise getattr(builtins, kind)('not expressible')
            return kind
    if kind == 'huge':
        inner, value = x + HUGE * y, lambda a, b: a + HUGE * b
    elif kind == 'huge_par':
        inner, value = x - E.Parameter('p', HUGE) % y, lambda a, b: a - HUGE % b
    else:
        inner, value = Gcd(), math.gcd
    return {'none': lambda: (inner, value),
            'add': lambda: (inner + y, lambda a, b: value(a, b) + b),
            'sum': lambda: (sum([x, inner, y, inner]), lambda a, b: a + b + 2 * value(a, b)),
            'abs': lambda: (abs(-inner), lambda a, b: abs(value(a, b))),
            'cmp': lambda: (inner > 2 * x, lambda a, b: value(a, b) > 2 * a),
            'and': lambda: ((inner > 1) & (x < y), lambda a, b: value(a, b) > 1 and a < b),
            'prod': lambda: (inner * x * 3, lambda a, b: value(a, b) * a * 3),
            'pow': lambda: (inner ** 2, lambda a, b: value(a, b) ** 2)}[wrap]()


def run_special(case, obs):
    for kind, wrap, a, b in case['special']:
        e, value = special_expr(kind, wrap)
        want = value(a, b)
        f = e.as_function()
        require(callable(f), 'no function', kind=kind, wrap=wrap)
        for env in ({'x': a, 'y': b}, {'x': a, 'y': b, 'unrelated': 1}):
            require(e.evaluate(dict(env)) == want, 'wrong value', kind=kind, wrap=wrap, a=a, b=b)
            require(f(**env) == want, 'the function of an expression that cannot be compiled is wrong', kind=kind, wrap=wrap, a=a, b=b)
        obs.count('not_expressible')
        obs.see('special', (kind, wrap))
    obs.nontrivial()


# constants and parameters that are no integers: some have no literal form, the text of others reads as another value
class Opaque(object):
    def __repr__(self):
        return '<opaque>'


OPAQUE = Opaque()
VALUES = {'inf': float('inf'), '-inf': float('-inf'), 'float': 0.1, 'whole': 3.0, 'huge': 1e300, 'half': fractions.Fraction(1, 2),
          'third': fractions.Fraction(-1, 3), 'decimal': decimal.Decimal('0.1'), 'text': 'x', 'word': 'red', 'digits': '12', 'quotes': 'it\'s "so"',
          'empty': '', 'lines': 'a\n\\b', 'none': None, 'pair': (1, 'x'), 'bytes': b'x', 'complex': 2 - 1j, 'bool': True, 'date': datetime.date(2020, 1, 2),
          'frozenset': frozenset([1, 2]), 'opaque': OPAQUE, 'type': int}
NUMERIC = {'inf', '-inf', 'float', 'whole', 'huge', 'half', 'third', 'bool'}


def run_values(case, obs):
    s = sut.S()
    E = s.expression
    for kind, other, how, seed in case['values']:
        rng = random.Random(seed)
        value = VALUES[kind]
        x, y = E.Variable('x'), E.Variable('y')
        e = E.Const(value) if how == 'c' else E.Parameter('p', value)
        forms = [('eq', x == e, lambda a, b: a == value), ('ne', x != e, lambda a, b: a != value), ('flip', e == x, lambda a, b: value == a),
                 ('and', (x == e) & (y == 1), lambda a, b: a == value and b == 1), ('or', (x != e) | (y == 1), lambda a, b: a != value or b == 1),
                 ('either', (x == e) | (x == E.Const(VALUES[other])), lambda a, b: a == value or a == VALUES[other]),
                 ('not', E.Not(x == e), lambda a, b: not a == value)]
        if kind in NUMERIC:
            forms += [('lt', y < e, lambda a, b: b < value), ('times', y * e > 1, lambda a, b: b * value > 1 if value == value else False),
                      ('plus', y + e + y, lambda a, b: b + value + b), ('minus', y - e, lambda a, b: b - value), ('half', e - y * 2, lambda a, b: value - b * 2)]
        for what, f, want in forms:
            fun = f.as_function()
            for a in (value, VALUES[other], 1, 0):
                for b in (1, 2):
                    w = want(a, b)
                    require(f.evaluate({'x': a, 'y': b}) == w, 'wrong value', kind=kind, other=other, how=how, form=what, b=b)
                    try:
                        got = fun(x=a, y=b)
                    except Exception as exc:
                        require(False, 'the compiled form of an expression raises although it has a value', kind=kind, other=other, how=how, form=what,
                             b=b, error=repr(exc)[:200])
                    require(got == w, 'the compiled form gives another value', kind=kind, other=other, how=how, form=what, b=b)
                    obs.count('other_values_compared')
            obs.see('values', (kind, how, what))
        # in a model, compiled or not
        m = s.model.Model()
        dom = [value]
        for v in (VALUES[other], 7):
            if v not in dom:
                dom.append(v)
        rng.shuffle(dom)
        u, w = m.add_int_variable(dom, name='u'), m.add_int_variable(dom, name='w')
        m.add_constraint((u == e) | (w == e))
        m.add_constraint(u != w)
        m.add_constraint(w != E.Const(7))
        want = [(a, b) for a in dom for b in dom if (a == value or b == value) and a != b and b != 7]
        for compiled in (True, False):
            got = [(sol['u'], sol['w']) for sol in s.solver.Solver(compile_constraints=compiled).solve(m)]
            require(len(got) == len(want) and all(g in want for g in got), 'compiling changes the solutions' if compiled else 'wrong solutions',
                    kind=kind, other=other, how=how, count=len(got), expected=len(want))
            obs.count('other_values_solved')
    obs.nontrivial()


def plain_name(n):
    import keyword
    return n.isascii() and not keyword.iskeyword(n)


def run_e02(case, obs):
    if 'special' in case:
        return run_special(case, obs)
    if 'values' in case:
        return run_values(case, obs)
    par = case['par']
    for f, e, pairs, rng in prepared(case, obs, n=7):
        if not pairs:
            continue
        simple = all(plain_name(n) for n in ref.variables(f)) and ref.depth(f) <= 30
        fns = [('as_function', e.as_function())]
        try:
            fns.append(('compile_py_function', e.compile_py_function()))
        except Exception as exc:
            require(not simple, 'an ordinary expression cannot be compiled', formula=f, error=repr(exc))
            obs.count('uncompilable')
        for env, want in pairs:
            direct = e.evaluate(dict(env))
            for what, fun in fns:
                require(callable(fun), '{} gives no function'.format(what), formula=f)
                got = fun(**env)
                obs.count('compiled_calls_compared')
                require(got == direct and bool(got) == bool(direct),
                        'compiled ({}) and direct evaluation differ'.format(what), formula=f, assignment=env,
                        params=par, direct=direct, compiled=got, reference=want)
                if rng.random() < 0.25:
                    got = fun(**dict(env, zzz_unused=3, q_unused=-1))
                    require(got == direct, 'an unused binding changes the value of a compiled expression',
                            formula=f, assignment=env, direct=direct, compiled=got)
        if any(not plain_name(n) for n in ref.variables(f)):
            obs.count('awkward_names')
        if ref.size(f) > 3:
            obs.nontrivial()


register(Check(
    'E02', 'the E01 formulas with ordinary and awkward variable names (keywords, names of built-ins, non-ASCII) and '
           'chains up to 240 operators deep; every function obtained by compiling is called next to direct '
           'evaluation; non-trivial: more than 3 nodes',
    gen_e02, run_e02, quick=2400, thorough=50000, fixed=enumerated,
    need={'compiled_calls_compared': 40000, 'awkward_names': 300, 'other_values_compared': 5000}))


# ------------------------------------------------------------------ E03
def run_e03(case, obs):
    par = case['par']
    for f, e, pairs, rng in prepared(case, obs, n=6):
        occurring = set(ref.variables(f))
        reported = list(e.vars())
        obs.count('expressions')
        require(len(set(reported)) == len(reported), 'a variable is reported twice', formula=f, reported=reported)
        require(set(reported) <= occurring, 'a reported variable does not occur in the formula (or is a parameter)',
                formula=f, reported=reported)
        require(sorted(e.vars()) == sorted(reported), 'asking again gives other variables', formula=f)
        missing = occurring - set(reported)
        if missing:
            obs.count('variables_simplified_away')
        for env, want in pairs:
            for _ in range(2):
                if missing:
                    other = dict(env)
                    for n in missing:
                        other[n] = value_pool(rng)
                    got = expected(f, other, par)
                    require(got is None or got == want, 'an unreported variable influences the value', formula=f,
                            reported=reported, assignments=[env, other], values=[want, got])
            only = {n: env[n] for n in reported}
            got = e.evaluate(dict(only))
            require(got == want, 'the reported variables do not determine the value', formula=f, assignment=only,
                    expected=want, got=got)
            obs.count('sufficient_assignments')
            if not reported:
                continue
            # one variable on which the value depends, left out: an error, never a value
            name = rng.choice(reported)
            other = dict(env)
            other[name] = value_pool(rng)
            there = expected(f, other, par)
            if there is not None and there != want:
                only.pop(name)
                for what, call in (('direct evaluation', lambda: e.evaluate(dict(only))),
                                   ('the compiled function', lambda: e.as_function()(**only))):
                    try:
                        value = call()
                    except Exception:
                        obs.count('insufficient_assignments_refused')
                    else:
                        raise Violation('{} gives a value although a variable it depends on is unbound'.format(what), formula=f,
                                        assignment=only, unbound=name, value=value)
        subsets = [set(), set(reported), occurring]
        for _ in range(4):
            subsets.append({n for n in occurring if rng.random() < 0.5})
        for bound in subsets:
            sub = {n: value_pool(rng) for n in bound}
            if rng.random() < 0.15:
                # bound is bound, whatever the value
                sub = {n: rng.choice([None, '', False, 0, v]) for n, v in sub.items()}
                obs.count('bound_to_odd_values')
            sub['unrelated'] = 1
            if par and rng.random() < 0.3:
                sub[rng.choice(sorted(par))] = 7
            free = list(e.free_vars(sub))
            obs.count('free_var_queries')
            require(len(free) == len(set(free)) and set(free) == set(reported) - bound,
                    'wrong free variables', formula=f, bound=sorted(sub), reported=reported, free=free)
        if len(occurring) > 1:
            obs.nontrivial()


register(Check(
    'E03', 'the E01 formulas; reported and free variables under random partial assignments are compared with the '
           'formula and with the observed dependence of the value; non-trivial: at least two variables',
    lambda rng, i, tier: gen_forms(rng, i, tier, awkward=True), run_e03, quick=2500, thorough=40000, fixed=enumerated,
    need={'free_var_queries': 20000, 'sufficient_assignments': 20000, 'insufficient_assignments_refused': 10000}))


# ------------------------------------------------------------------ E04
RIGID = ['sub', 'div', 'mod', 'pow', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or']      # never simplified
NONCOMM = ['sub', 'div', 'mod', 'pow', 'lt', 'le', 'gt', 'ge', 'and', 'or']


def rigid(rng, d, names):
    """A formula no construction-time simplification touches: its structure is what was written."""
    if d <= 0 or rng.random() < 0.15:
        return ['v', rng.choice(names)] if rng.random() < 0.8 else ['p', rng.choice(PARS)]
    r = rng.random()
    if r < 0.15:
        return [rng.choice(['neg', 'abs', 'not']), rigid(rng, d - 1, names)]
    if r < 0.35:
        return [rng.choice(RIGID), ['v', rng.choice(names)], ['c', rng.choice([2, 3, 5, -2])]]
    if r < 0.45:
        n = rng.randint(2, 5)
        f = ['v', rng.choice(names)]
        for _ in range(n):
            f = ['add', f, rng.choice([['v', rng.choice(names)], ['c', rng.choice([2, 3])]])]
        return f
    if r < 0.52:
        f = ['v', rng.choice(names)]
        for _ in range(rng.randint(1, 4)):
            f = ['mul', f, ['v', rng.choice(names)]]
        return f
    return [rng.choice(RIGID), rigid(rng, d - 1, names), rigid(rng, d - 1, names)]


def paths(f, here=()):
    yield here
    if f[0] in ('v', 'p', 'c', 'C'):
        return
    if f[0] in ('sum', 'Sum', 'Prod'):
        for i, g in enumerate(f[1]):
            yield from paths(g, here + (1, i))
    else:
        for i, g in enumerate(f[1:]):
            yield from paths(g, here + (i + 1,))


def at(f, path):
    for i in path:
        f = f[i]
    return f


def put(f, path, new):
    if not path:
        return new
    f = list(f)
    f[path[0]] = put(f[path[0]], path[1:], new)
    return f


def mutate(rng, f, names):
    """-> (mutated formula, kind, certainly_different)"""
    ps = list(paths(f))
    rng.shuffle(ps)
    for path in ps:
        g = at(f, path)
        inside_chain = any(at(f, path[:i])[0] in ('add', 'mul', 'sum') for i in range(len(path)))
        if g[0] == 'v':
            if rng.random() < 0.2:
                return put(f, path, ['p', g[1]]), 'variable', True      # a parameter of the same name
            other = rng.choice([n for n in names if n != g[1]])
            return put(f, path, ['v', other]), 'variable', True
        if g[0] == 'c':
            return put(f, path, ['c', g[1] + rng.choice([2, 4])]), 'constant', not inside_chain and g[1] > 0
        if g[0] in RIGID:
            if g[0] in NONCOMM and g[1] != g[2] and rng.random() < 0.5:
                return put(f, path, [g[0], g[2], g[1]]), 'operand order', \
                    g[1][0] != 'c' and g[2][0] != 'c'
            other = rng.choice([o for o in RIGID if o != g[0]])
            if other == 'pow' or g[0] == 'pow':
                continue
            return put(f, path, [other, g[1], g[2]]), 'operator', True
        if g[0] in ('neg', 'abs', 'not'):
            other = rng.choice([o for o in ('neg', 'abs', 'not') if o != g[0]])
            return put(f, path, [other, g[1]]), 'operator', True
        if g[0] in ('add', 'mul'):
            return put(f, path, ['mul' if g[0] == 'add' else 'add', g[1], g[2]]), 'operator', False
    return None, None, None


def gen_e04(rng, i, tier):
    cases = []
    for _ in range(15):
        if rng.random() < 0.6:
            f = rigid(rng, rng.choice([1, 2, 3]), NAMES)
            g, kind, sure = mutate(rng, f, NAMES)
        else:
            gen = ref.FormulaGen(rng, NAMES, PARS, total=True)
            f = gen.any(3)
            g, kind, sure = mutate(rng, f, NAMES)
            sure = False
            if rng.random() < 0.2 or g is None:
                g, kind = gen.any(2), 'unrelated'
        if g is not None:
            cases.append([f, g, kind, bool(sure)])
    par = {'p': rng.choice([-2, 3]), 'q': rng.choice([0, 5])}
    par.update((n, rng.choice([-2, 0, 3])) for n in NAMES)       # parameters named like the variables
    return {'pairs': cases, 'par': par, 'seed': rng.randrange(10**9)}


def other_constants(rng, obs):
    """Constants of other types: equal structure means equal values, however alike they read"""
    E = sut.S().expression
    x = E.Variable('x')
    pool = list(VALUES.values()) + ['0.1', '3.0', 'None', "(1, 'x')", 'True', 1, '1', 0, '0', 12, 3, 'inf', 'b', b'12', 'satisfy']
    wraps = [lambda c: E.Const(c), lambda c: x == E.Const(c), lambda c: (x != E.Const(c)) | (x == 1), lambda c: E.Not(x == E.Const(c)),
             lambda c: (x == 2) & (E.Const(c) == x)]
    for _ in range(12):
        a, b = rng.choice(pool), rng.choice(pool)
        twins = [c for c in pool if str(c) == str(a)]
        b = rng.choice(twins) if rng.random() < 0.6 else b
        wrap = rng.choice(wraps)
        e, f = wrap(a), wrap(b)
        require(e.equals(e) and e.equals(wrap(a)), 'an expression does not equal a copy', value=repr(a))
        require(bool(e.equals(f)) == bool(f.equals(e)), 'equals is not symmetric', values=[repr(a), repr(b)])
        require(a == b or not e.equals(f), 'expressions differing in a constant are reported equal',
                values=[repr(a), repr(b)])
        obs.count('other_constants')


def run_e04(case, obs):
    import random
    rng = random.Random(case['seed'])
    if rng.random() < 0.1:
        other_constants(rng, obs)
    par = case['par']
    for f, g, kind, sure in case['pairs']:
        names = sorted(set(ref.variables(f)) | set(ref.variables(g)))
        envs = assignments(rng, names, 10)
        if not (buildable(f, envs, par) and buildable(g, envs, par)):
            continue
        var, pobj = objects(names, par)
        var2, pobj2 = objects(names, par)
        e, e2, h = sut.build_expr(f, var, pobj), sut.build_expr(f, var2, pobj2), sut.build_expr(g, var2, pobj2)
        obs.count('pairs')
        for a, b, what in ((e, e, 'itself'), (e, e2, 'a copy built the same way'), (h, h, 'itself')):
            r = a.equals(b)
            require(r is True or r == 1, 'an expression does not equal {}'.format(what), formula=f, result=repr(r))
        r1, r2 = e.equals(h), h.equals(e)
        require(bool(r1) == bool(r2), 'equals is not symmetric', formulas=[f, g], results=[repr(r1), repr(r2)])
        require(isinstance(r1, (bool, int)), 'equals gives no truth value', result=repr(r1))
        if sure:
            obs.count('certainly_different_' + kind.replace(' ', '_'))
            require(not r1, 'expressions differing in {} are reported equal'.format(kind), formulas=[f, g],
                    expressions=[repr(e), repr(h)])
        if r1:
            obs.count('reported_equal')
            require(set(e.vars()) == set(h.vars()), 'equal expressions have different variables', formulas=[f, g])
            for env in envs:
                a, b = expected(f, env, par), expected(g, env, par)
                if a is not None and b is not None:
                    require(a == b, 'expressions of different value are reported equal', formulas=[f, g],
                            assignment=env, values=[a, b])
        other = rng.choice(case['pairs'])[1]
        if not buildable(other, assignments(rng, ref.variables(other), 10), par):
            continue
        v3, p3 = objects(ref.variables(other), par)
        o = sut.build_expr(other, v3, p3)
        if e.equals(o):
            obs.count('reported_equal')
            allnames = sorted(set(ref.variables(other)) | set(names))
            for env in assignments(rng, allnames, 8):
                a, b = expected(f, env, par), expected(other, env, par)
                require(a is None or b is None or a == b, 'expressions of different value are reported equal',
                        formulas=[f, other], assignment=env, values=[a, b])
        obs.nontrivial()


register(Check(
    'E04', 'pairs of a formula and a copy differing in one leaf, operator or operand order (or an unrelated one); '
           'reported equality is judged by construction and by the values of both at up to 10 assignments',
    gen_e04, run_e04, quick=3000, thorough=40000,
    need={'pairs': 5000, 'certainly_different_operator': 500, 'certainly_different_constant': 200,
          'certainly_different_variable': 500, 'certainly_different_operand_order': 100}))


# ------------------------------------------------------------------ E05
def gen_e05(rng, i, tier):
    ops = []
    n = 4 + 2 + 4      # initial pool: variables, parameters and constants
    for _ in range(rng.randint(10, 40)):
        r = rng.random()
        if r < 0.55:
            op = rng.choice(['add', 'add', 'mul', 'mul', 'sub', 'div', 'mod', 'eq', 'lt', 'le', 'ne', 'and', 'or'])
            a = ['e', rng.randrange(n)]
            b = ['e', rng.randrange(n)] if rng.random() < 0.75 else ['k', rng.choice([-1, 0, 1, 2, 3, -2])]
            if op in ('div', 'mod'):
                b = ['k', rng.choice([2, 3, -2, 5])]
            ops.append(['bin', op, a, b, rng.random() < 0.3, rng.random() < 0.2])
            n += 1
        elif r < 0.65:
            ops.append(['un', rng.choice(['neg', 'abs', 'pos', 'not']), rng.randrange(n)])
            n += 1
        elif r < 0.75:
            ops.append([rng.choice(['sum', 'Sum', 'Prod']), [rng.randrange(n) for _ in range(rng.randint(1, 4))],
                        rng.choice([0, 1, 2, -1])])
            n += 1
        elif r < 0.80:
            ops.append(['equals', rng.randrange(n), rng.randrange(n)])
        elif r < 0.86:
            ops.append(['compile', rng.randrange(n)])
        elif r < 0.90:
            ops.append(['evaluate', rng.randrange(n)])
        elif r < 0.95:
            ops.append(['solve', rng.randrange(n), rng.randrange(n), rng.random() < 0.7])
        else:
            ops.append(['optimize', rng.randrange(n), rng.randrange(n), rng.random() < 0.7, rng.choice('mM')])
    return {'ops': ops, 'par': {'p': rng.choice([-3, 0, 2]), 'q': rng.choice([1, 4])}, 'seed': rng.randrange(10**9)}


LIMIT = 10**12


def run_e05(case, obs):
    import itertools
    import random
    rng = random.Random(case['seed'])
    s = sut.S()
    E = s.expression
    par = case['par']
    model = s.model.Model()
    var = {n: model.add_int_variable(range(-1, 2), name=n) for n in NAMES[:3]}
    var['w'] = model.add_bool_variable(name='w')
    pobj = {k: model.add_parameter(v, name=k) for k, v in par.items()}
    envs = [{'x': 0, 'y': 1, 'z': -1, 'w': 1}, {'x': 1, 'y': 1, 'z': 0, 'w': 0}, {'x': -1, 'y': 0, 'z': 1, 'w': 1},
            {'x': 3, 'y': -5, 'z': 7, 'w': 2}]
    pool = []       # (expression, formula, snapshot)

    def snapshot(e):
        values = []
        for env in envs:
            # the assignment is the caller's
            given = dict(env)
            values.append(e.evaluate(given))
            require(given == env, 'evaluating changes the assignment', before=env, after=given)
        given = dict(envs[0])
        list(e.free_vars(given))
        require(given == envs[0], 'asking for the free variables changes the assignment', before=envs[0], after=given)
        return (repr(e), str(e), tuple(e.vars()), tuple(values))

    def small(f):
        return ref.size(f) < 120 and all(abs(ref.ev(f, env, par)) < LIMIT for env in envs)

    def admit(e, f):
        e = E.Expression.coerce(e)
        snap = snapshot(e)
        want = tuple(ref.ev(f, env, par) for env in envs)
        require(snap[3] == want, 'a newly built expression has the wrong value', formula=f, expected=want, got=snap[3])
        pool.append((e, f, snap))

    def check(k, when):
        e, f, snap = pool[k]
        obs.count('snapshots_compared')
        now = snapshot(e)
        require(now == snap, 'an existing expression changed ({})'.format(when), formula=f, before=snap, after=now)

    for n in NAMES:
        admit(var[n], ['v', n])
    for k in par:
        admit(pobj[k], ['p', k])
    for k in (0, 1, 2, -3):
        admit(E.Const(k), ['C', k])
    for op in case['ops']:
        idx = lambda j: j % len(pool)
        before = len(pool)
        if op[0] == 'bin':
            a, b = [(pool[idx(o[1])][0], pool[idx(o[1])][1]) if o[0] == 'e' else (o[1], ['c', o[1]]) for o in op[2:4]]
            if op[2][0] == 'k':
                a = (E.Const(a[0]), a[1])
            if op[4] and op[3][0] == 'k':
                a, b = b, a                        # constant on the left
                if op[1] in ('div', 'mod'):
                    a, b = b, a
            f = [op[1], a[1], b[1]]
            if small(f):
                # operator.iadd and so on are the augmented assignments of a name bound to the operand
                table = sut.IOPS if op[5] and op[1] in sut.IOPS else sut.OPS
                admit(table[op[1]](a[0], b[0]), f)
        elif op[0] == 'un':
            a = pool[idx(op[2])]
            f = [op[1], a[1]]
            if small(f):
                admit({'neg': lambda v: -v, 'abs': abs, 'pos': lambda v: +v, 'not': E.Not}[op[1]](a[0]), f)
        elif op[0] in ('sum', 'Sum', 'Prod'):
            items = [pool[idx(j)] for j in op[1]]
            const = op[2]
            f = ['sum', [x[1] for x in items]] if op[0] == 'sum' else [op[0], [x[1] for x in items], const]
            if small(f):
                if op[0] == 'sum':
                    e = sum(x[0] for x in items)
                else:
                    e = getattr(E, op[0])([x[0] for x in items], const=const)
                admit(e, f)
        elif op[0] == 'equals':
            pool[idx(op[1])][0].equals(pool[idx(op[2])][0])
        elif op[0] == 'compile':
            fun = pool[idx(op[1])][0].as_function()
            fun(**envs[0])
        elif op[0] == 'evaluate':
            pool[idx(op[1])][0].evaluate(dict(envs[1]))
        elif op[0] == 'solve':
            e, f, _ = pool[idx(op[1])]
            if ref.variables(f) and list(e.vars()):
                model.add_constraint((e >= 0) | (e < 0))
                con = s.constraint.ExpressionConstraint(pool[idx(op[2])][0])
                for sol in itertools.islice(sut.make_solver(['ORDERED', op[3]]).solve(
                        model, additional_constraints=[con]), 4):
                    pass
                obs.count('solves')
        elif op[0] == 'optimize':
            e, f, _ = pool[idx(op[1])]
            kind = s.objective.Minimize if op[4] == 'm' else s.objective.Maximize
            obj = kind(e)
            for sol in itertools.islice(sut.make_solver(['GROUPS', op[3]]).optimize(model, obj), 6):
                want = ref.ev(f, sol.solution, par)
                require(obj.evaluate(sol.solution) == want, 'wrong objective value', formula=f)
            obs.count('optimizations')
        obs.count('operations')
        for k in {rng.randrange(before) for _ in range(4)}:
            check(k, 'after ' + op[0])
    for k in range(len(pool)):
        check(k, 'at the end')
    # and every kind of use leaves the compiled meaning the same
    for e, f, snap in pool[-3:]:
        fun = e.as_function()
        got = tuple(fun(**env) for env in envs)
        require(got == snap[3], 'compiled value differs after the history', formula=f, expected=snap[3], got=got)
    if len(pool) > 10:
        obs.nontrivial()
    obs.peak('pool', len(pool))


register(Check(
    'E05', 'histories of 10-40 operations (combining, n-ary sums, comparing, compiling, evaluating, solving, '
           'optimizing) over a shared pool of expressions; rendering, variables and values of pool members are '
           're-observed after every operation; non-trivial: more than 10 expressions',
    gen_e05, run_e05, quick=2500, thorough=30000, need={'snapshots_compared': 20000, 'solves': 150, 'optimizations': 100}))


# ------------------------------------------------------------------ E06
def gen_e06(rng, i, tier):
    nv = rng.randint(1, 3)
    names = NAMES[:nv]
    vars_ = []
    for n in names:
        dom, kind = ref.gen_domain(rng, 5, rng.choice(['range', 'list', 'tuple']))
        vars_.append([n, [v for v in dom if abs(v) < 1000] or [1], 'list'])
    pars = ['pp', 'qq'][:rng.randint(1, 2)]
    cons = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(30):
            g = ref.FormulaGen(rng, names, pars * 3, total=True, consts=[-2, -1, 0, 1, 2, 3])
            f = g.relation(rng.choice([1, 2, 2, 3]))
            if ref.variables(f) and ref.params(f):
                cons.append(['expr', f])
                break
    if not cons:
        cons = [['expr', ['lt', ['v', 'x'], ['p', 'pp']]]]
    g = ref.FormulaGen(rng, names, pars * 3, total=True)
    probe = g.any(3)
    steps = []
    for _ in range(rng.randint(3, 7)):
        r = rng.random()
        if r < 0.5:
            steps.append(['set', rng.choice(pars), rng.choice([-5, -3, -2, -1, 0, 1, 2, 3, 4, 9])])
        if r < 0.85:
            steps.append(['solve', sut.gen_cfg(rng)])
        elif r < 0.93:
            steps.append(['optimize', sut.gen_cfg(rng), rng.choice('mM')])
        else:
            steps.append(['eval'])
    steps.append(['set', rng.choice(pars), rng.choice([-4, 0, 1, 2, 6])])
    steps.append(['solve', ['GROUPS', rng.random() < 0.5]])
    steps.append(['eval'])
    return {'vars': vars_, 'params': [[p, rng.choice([-3, -1, 0, 1, 2])] for p in pars], 'cons': cons, 'probe': probe,
            'steps': steps}


def run_e06(case, obs):
    b = sut.Built(case, cons=[])
    s = sut.S()
    cons = []
    for c in case['cons']:
        e = sut.build_expr(c[1], b.var, b.par)
        if not list(e.vars()):
            continue            # a constraint over parameters only is decided when added
        b.model.add_constraint(e)
        cons.append(c)
    probe = sut.build_expr(case['probe'], b.var, b.par)
    objectives = [s.objective.Minimize(probe), s.objective.Maximize(probe)]
    names = [v[0] for v in case['vars']]
    current = dict(case['params'])
    env = {v[0]: v[1][-1] for v in case['vars']}
    seen = []
    for step in case['steps']:
        if step[0] == 'set':
            b.setpar(step[1], step[2])
            current[step[1]] = step[2]
            require(b.par[step[1]].value == step[2], 'a parameter does not hold its new value')
            obs.count('parameter_changes')
        elif step[0] == 'eval':
            want = ref.ev(case['probe'], env, current)
            got = probe.evaluate(dict(env))
            comp = probe.as_function()(**env)
            for objective in objectives:
                require(objective.evaluate(dict(env)) == want, 'an objective does not follow its parameter', formula=case['probe'],
                        params=current, expected=want, got=objective.evaluate(dict(env)))
            require(got == want and comp == want, 'an expression does not follow its parameter', formula=case['probe'],
                    params=current, expected=want, direct=got, compiled=comp)
            obs.count('evaluations')
        else:
            rm = ref.RefModel({'vars': case['vars'], 'cons': cons, 'params': []}, par=current)
            want = rm.solutions()
            seen.append(tuple(want))
            solver = sut.make_solver(step[1])
            if step[0] == 'solve':
                got = sut.collect(solver.solve(b.model), names, rm.space())
                obs.count('solves')
                require(sorted(got) == sorted(want), 'solutions do not follow the current parameter values',
                        params=current, cfg=step[1], missing=sorted(set(want) - set(got))[:4],
                        extra=sorted(set(got) - set(want))[:4])
            else:
                # the same objects all along, as often as new ones
                k = step[2] != 'm'
                objective = objectives[k] if len(seen) % 2 else (s.objective.Minimize, s.objective.Maximize)[k](probe)
                res = solver.optimal_solution(b.model, objective)
                obs.count('optimizations')
                vals = [ref.ev(case['probe'], dict(zip(names, w)), current) for w in want]
                if not vals:
                    require(res.solution is None, 'a solution of an unsatisfiable model', params=current)
                else:
                    require(res.solution is not None, 'no optimum found although there are solutions', params=current)
                    got = sut.as_tuple(res.solution, names)
                    best = min(vals) if step[2] == 'm' else max(vals)
                    require(got in want and ref.ev(case['probe'], res.solution, current) == best,
                            'the optimum does not follow the current parameter values', params=current,
                            objective=case['probe'], kind=step[2], got=res.solution, best=best, cfg=step[1])
    if len(set(seen)) > 1:
        obs.nontrivial()
        obs.count('histories_where_solutions_changed')


register(Check(
    'E06', 'histories of parameter assignments, solves and optimizations by compiling and non-compiling solvers and '
           'evaluations on one model, each judged by enumeration with the current values as constants; non-trivial: '
           'the solution set changed during the history',
    gen_e06, run_e06, quick=5400, thorough=60000, need={'solves': 2000, 'histories_where_solutions_changed': 300}))
