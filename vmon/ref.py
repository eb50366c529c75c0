"""Formulas, models and their meaning, independent of satisfy.

A formula is a nested list:
  ["v", name] variable      ["p", name] parameter      ["c", n] Python int      ["C", n] Const(n)
  [op, a, b]  op in BINARY  [op, a]  op in UNARY
  ["sum", [..]] builtin sum ["Sum", [..], const] / ["Prod", [..], const] the n-ary classes
Meaning: plain Python on ints, / is //, & and | are 'and' and 'or'.
"""
import itertools

BINARY = {'add': '+', 'sub': '-', 'mul': '*', 'div': '//', 'mod': '%', 'pow': '**', 'eq': '==', 'ne': '!=',
          'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'and': 'and', 'or': 'or'}
UNARY = ('neg', 'pos', 'abs', 'not')
COMPARE = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')


class Undefined(Exception):
    pass


def safe_pow(a, b):
    if b < 0 or (abs(a) > 1 and int(b) * int(abs(a)).bit_length() > 2000):
        raise Undefined()
    return a ** b


def _div(a, b):
    if b == 0:
        raise Undefined()
    return a // b


def _mod(a, b):
    if b == 0:
        raise Undefined()
    return a % b


def ev(f, env, par, strict=False):
    """Value of a formula; strict: both sides of and/or must be defined."""
    k = f[0]
    if k == 'v':
        return env[f[1]]
    if k == 'p':
        return par[f[1]]
    if k in ('c', 'C'):
        return f[1]
    if k == 'neg':
        return -ev(f[1], env, par, strict)
    if k == 'pos':
        return +ev(f[1], env, par, strict) if False else ev(f[1], env, par, strict)
    if k == 'abs':
        return abs(ev(f[1], env, par, strict))
    if k == 'not':
        return not ev(f[1], env, par, strict)
    if k == 'sum':
        t = 0
        for g in f[1]:
            t = t + ev(g, env, par, strict)
        return t
    if k == 'Sum':
        t = f[2]
        for g in f[1]:
            t = t + ev(g, env, par, strict)
        return t
    if k == 'Prod':
        t = f[2]
        for g in f[1]:
            t = t * ev(g, env, par, strict)
        return t
    a = ev(f[1], env, par, strict)
    if k in ('and', 'or'):
        if strict:
            b = ev(f[2], env, par, strict)
            return (a and b) if k == 'and' else (a or b)
        if k == 'and':
            return a if not a else ev(f[2], env, par, strict)
        return a if a else ev(f[2], env, par, strict)
    b = ev(f[2], env, par, strict)
    if k == 'add':
        return a + b
    if k == 'sub':
        return a - b
    if k == 'mul':
        return a * b
    if k == 'div':
        return _div(a, b)
    if k == 'mod':
        return _mod(a, b)
    if k == 'pow':
        return safe_pow(a, b)
    if k == 'eq':
        return a == b
    if k == 'ne':
        return a != b
    if k == 'lt':
        return a < b
    if k == 'le':
        return a <= b
    if k == 'gt':
        return a > b
    if k == 'ge':
        return a >= b
    raise ValueError(k)


def src(f):
    """Fully parenthesised Python source of a formula over mappings E (variables) and P (parameters)."""
    k = f[0]
    if k == 'v':
        return 'E[{!r}]'.format(f[1])
    if k == 'p':
        return 'P[{!r}]'.format(f[1])
    if k in ('c', 'C'):
        return '({!r})'.format(f[1])
    if k == 'neg':
        return '(-({}))'.format(src(f[1]))
    if k == 'pos':
        return src(f[1])
    if k == 'abs':
        return 'abs({})'.format(src(f[1]))
    if k == 'not':
        return '(not ({}))'.format(src(f[1]))
    if k == 'sum':
        return '(' + '+'.join(['0'] + ['({})'.format(src(g)) for g in f[1]]) + ')'
    if k == 'Sum':
        return '(' + '+'.join(['({})'.format(f[2])] + ['({})'.format(src(g)) for g in f[1]]) + ')'
    if k == 'Prod':
        return '(' + '*'.join(['({})'.format(f[2])] + ['({})'.format(src(g)) for g in f[1]]) + ')'
    if k == 'div':
        return '_div({},{})'.format(src(f[1]), src(f[2]))
    if k == 'mod':
        return '_mod({},{})'.format(src(f[1]), src(f[2]))
    if k == 'pow':
        return '_pow({},{})'.format(src(f[1]), src(f[2]))
    return '(({}) {} ({}))'.format(src(f[1]), BINARY[k], src(f[2]))


def fn(f):
    """The formula as a Python function of (env, params)."""
    return eval('lambda E, P: ' + src(f), {'_div': _div, '_mod': _mod, '_pow': safe_pow, 'abs': abs})


def leaves(f):
    k = f[0]
    if k in ('v', 'p', 'c', 'C'):
        yield f
    elif k in ('sum', 'Sum', 'Prod'):
        for g in f[1]:
            yield from leaves(g)
    else:
        for g in f[1:]:
            yield from leaves(g)


def variables(f):
    out = []
    for leaf in leaves(f):
        if leaf[0] == 'v' and leaf[1] not in out:
            out.append(leaf[1])
    return out


def params(f):
    return sorted({leaf[1] for leaf in leaves(f) if leaf[0] == 'p'})


def size(f):
    k = f[0]
    if k in ('v', 'p', 'c', 'C'):
        return 1
    if k in ('sum', 'Sum', 'Prod'):
        return 1 + sum(size(g) for g in f[1])
    return 1 + sum(size(g) for g in f[1:])


def depth(f):
    k = f[0]
    if k in ('v', 'p', 'c', 'C'):
        return 0
    subs = f[1] if k in ('sum', 'Sum', 'Prod') else f[1:]
    return 1 + max([depth(g) for g in subs] or [0])


# ---------------------------------------------------------------------------- formula generator
CONSTS = [-3, -2, -1, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10, -10]


class FormulaGen:
    def __init__(self, rng, names, params=(), total=False, nary=True, consts=CONSTS, logic=True):
        """total: only formulas defined for every assignment (divisors are non-zero constants, small powers)."""
        self.rng, self.names, self.params, self.total = rng, list(names), list(params), total
        self.nary, self.consts, self.logic = nary, consts, logic

    def const(self):
        return [self.rng.choice(['c', 'c', 'C']), self.rng.choice(self.consts)]

    def leaf(self):
        r = self.rng.random()
        if r < 0.55 and self.names:
            return ['v', self.rng.choice(self.names)]
        if r < 0.68 and self.params:
            return ['p', self.rng.choice(self.params)]
        if r < 0.70:
            return [self.rng.choice(['c', 'C']), self.rng.choice([10**9, -10**12, 99, 1000, 12345, 256, 257, -6, 2**53 + 1, -2**64, 10**20 + 7])]
        return self.const()

    def any(self, d):
        rng = self.rng
        if d <= 0 or rng.random() < 0.12:
            return self.leaf()
        r = rng.random()
        if r < 0.40:
            return [rng.choice(['add', 'add', 'sub', 'mul', 'mul', 'sub']), self.any(d - 1), self.any(d - 1)]
        if r < 0.52:
            return self.chain(d)
        if r < 0.60:
            return self.divlike(d)
        if r < 0.62:
            return self.nest(d)
        if r < 0.70:
            return self.power(d)
        if r < 0.80:
            return [rng.choice(['neg', 'neg', 'abs', 'abs', 'pos', 'not'] if self.logic else ['neg', 'abs', 'pos']),
                    self.any(d - 1)]
        if self.logic:
            if r < 0.91:
                return [rng.choice(COMPARE), self.any(d - 1), self.any(d - 1)]
            return [rng.choice(['and', 'or']), self.any(d - 1), self.any(d - 1)]
        return [rng.choice(['add', 'sub', 'mul']), self.any(d - 1), self.any(d - 1)]

    def divlike(self, d):
        op = self.rng.choice(['div', 'mod'])
        if self.total:
            return [op, self.any(d - 1), [self.rng.choice(['c', 'C']), self.rng.choice([-3, -2, 2, 3, 5, 1, -1])]]
        return [op, self.any(d - 1), self.any(d - 1)]

    def nest(self, d):
        """Two operators in a row with constants: where a rewriting of ((x op a) op b) would be tempting."""
        rng = self.rng
        ops = ['div', 'mod', 'div', 'mod', 'mul', 'add', 'sub', 'pow'] + (list(COMPARE) + ['and', 'or'] if self.logic else [])
        first = rng.choice(ops)
        f = self.leaf() if rng.random() < 0.7 else self.any(min(d - 1, 1))
        scale = rng.choice([1, 1, 2, 3, -1, -2])
        c = rng.choice([2, 3, -2, -3, 4, 5, 1, -1])
        for op in [first, first if rng.random() < 0.5 else rng.choice(ops)]:
            if op == 'pow':
                f = ['pow', f, [rng.choice(['c', 'C']), rng.choice([0, 1, 2, 3])]]
            elif op in ('div', 'mod') or rng.random() < 0.7:
                f = [op, f, [rng.choice(['c', 'C']), c]]
            else:
                f = [op, [rng.choice(['c', 'C']), c], f]
            c = c * scale + rng.choice([0, 0, 1, -1])
            if op in ('div', 'mod') or self.total:
                c = c or 2
            elif not c and rng.random() < 0.5:
                c = 1
        return f

    def power(self, d):
        r = self.rng.random()
        base = self.any(d - 1)
        if r < 0.75 or self.total:
            return ['pow', base, [self.rng.choice(['c', 'C']), self.rng.choice([0, 1, 2, 2, 3])]]
        if r < 0.9:
            return ['pow', [self.rng.choice(['c', 'C']), self.rng.choice([-3, -2, -1, 0, 1, 2, 3])], self.any(d - 1)]
        return ['pow', base, self.any(d - 1)]

    def chain(self, d):
        """Long sums and products with constants that cancel: the flattening and folding paths."""
        rng = self.rng
        op = rng.choice(['add', 'add', 'mul'])
        n = rng.randint(2, 7) if rng.random() < 0.93 else rng.randint(8, 24)
        terms = []
        for _ in range(n):
            r = rng.random()
            if r < 0.35 and (n < 8 or r < 0.08):
                terms.append([rng.choice(['c', 'C']), rng.choice([-2, -1, -1, 0, 1, 1, 2, 3, -3])])
            elif r < 0.75 or n >= 8:
                terms.append(self.leaf())
            else:
                terms.append(self.any(min(d - 1, 2)))
        if op == 'add' and self.nary and rng.random() < 0.3:
            return ['sum', terms]
        if self.nary and rng.random() < 0.12:
            if op == 'add':
                return ['Sum', terms, rng.choice([0, 0, 1, -1, 3])]
            return ['Prod', terms, rng.choice([1, 1, -1, 2, 0])]
        while len(terms) > 1:           # fold in random association
            i = rng.randrange(len(terms) - 1) if rng.random() < 0.5 else 0
            terms[i:i + 2] = [[op, terms[i], terms[i + 1]]]
        return terms[0]

    def relation(self, d=2):
        """A boolean-looking formula suited to be a constraint."""
        rng = self.rng
        r = rng.random()
        if r < 0.72 or d <= 0:
            return [rng.choice(COMPARE), self.any(d), self.any(max(d - 1, 0))]
        if r < 0.86:
            return ['or', self.relation(d - 1), self.relation(d - 1)]
        if r < 0.95:
            return ['and', self.relation(d - 1), self.relation(d - 1)]
        return ['not', self.relation(d - 1)]


AWKWARD = ['sum', 'prod', 'abs', 'lambda', 'is', 'not', 'None', 'True', 'if', 'self', 'substitution', 'x\u00b2',
           'a\u00e9', 'a\ufb01', 'afi', 'print', 'eval', 'match', 'X', 'and', 'or', 'in', 'len', 'x__', 'x_1', 'int',
           'kwargs', 'dummy', 'Const', 'value', 'values', 'E', 'e1', 'from', 'name', 'cls', 'args']


# ---------------------------------------------------------------------------- models
class RefModel:
    """Executable meaning of a model description (see gen_model)."""

    def __init__(self, spec, par=None):
        self.spec = spec
        self.names = [v[0] for v in spec['vars']]
        self.domains = [list(v[1]) for v in spec['vars']]
        self.par = dict(spec.get('params', []))
        if par:
            self.par.update(par)
        self.cons = [self.compile(c) for c in spec['cons']]

    def compile(self, c):
        """-> (variable names, predicate over env)"""
        par = self.par
        if c[0] in ('expr', 'user'):
            g = fn(c[1])
            names = variables(c[1]) if c[0] == 'expr' else c[2]
            return names, (lambda env, g=g: bool(g(env, par)))
        if c[0] == 'ad':
            ns = list(dict.fromkeys(c[1]))
            return ns, (lambda env, ns=ns: len({env[n] for n in ns}) == len(ns))
        if c[0] == 'bool':
            return [], (lambda env, v=c[1]: bool(v))
        raise ValueError(c)

    def space(self):
        n = 1
        for d in self.domains:
            n *= max(len(d), 1)
        return n

    def ok(self, env, cons=None):
        return all(p(env) for _, p in (self.cons if cons is None else cons))

    def solutions(self, extra=()):
        """All solutions by plain enumeration (constraints applied as soon as their variables are bound)."""
        cons = self.cons + [self.compile(c) for c in extra]
        pos = {n: i for i, n in enumerate(self.names)}
        levels = [[] for _ in range(len(self.names) + 1)]
        for names, p in cons:
            levels[max([pos[n] + 1 for n in names] or [0])].append(p)
        out = []
        env = {}
        if not all(p(env) for p in levels[0]):
            return out

        def rec(i):
            if i == len(self.names):
                out.append(tuple(env[n] for n in self.names))
                return
            for value in self.domains[i]:
                env[self.names[i]] = value
                if all(p(env) for p in levels[i + 1]):
                    rec(i + 1)
            env.pop(self.names[i], None)
        rec(0)
        return out

    def plain_solutions(self):
        """The same by full product, for cross-checking the reference itself."""
        out = []
        for values in itertools.product(*self.domains):
            env = dict(zip(self.names, values))
            if self.ok(env):
                out.append(values)
        return out


DOMAIN_KINDS = ['range', 'list', 'tuple', 'set', 'iter', 'gen', 'frozenset', 'keys']


def gen_domain(rng, maxlen, kind=None):
    kind = kind or rng.choice(['range', 'range', 'list', 'list', 'tuple', 'set', 'gen', 'bool'])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
    n = max(1, min(n, maxlen))
    if kind == 'bool':
        return [0, 1], kind
    if kind == 'range':
        a, step = rng.choice([-3, -1, 0, 0, 0, 1, 2, 5]), rng.choice([1, 1, 1, 2, -1])
        return list(range(a, a + step * n, step)), kind
    pool = list(range(-6, 12)) + [100, -100, 1000, 10**10, 257, 2**53, 2**53 + 1]
    vals = rng.sample(pool, n)
    r = rng.random()
    if r < 0.2:
        vals.sort(reverse=True)
    elif r < 0.4:
        vals.sort()
    return vals, kind


PLAIN = ['x', 'y', 'z', 'u', 'v', 'w', 'a', 'b', 'c', 'd', 'k', 'm', 'n0', 'n1', 'n2', 'q_1', 'Alpha', 'Beta', 'long_name',
         't']


def gen_model(rng, maxspace=1500, maxvars=5, mincons=0, maxcons=5, params=True, user=True, awkward=0.1, ad=True,
              consts=True, domain_len=6, minvars=1, depth=2, empty=0.03, shapes=True):
    """A random model: {'vars': [[name, domain, kind]], 'params': [[name, value]], 'cons': [...]}"""
    nv = rng.randint(minvars, maxvars)
    pool = PLAIN if rng.random() > awkward else AWKWARD
    shape = rng.random() if shapes and maxvars >= 4 else 1
    if shape < 0.06:        # many variables of few values, named so that their order is not the alphabetical one
        big = rng.random() < 0.3        # most of them with a single value, and many constraints
        nv = rng.randint(17, 40) if big else rng.randint(7, 16)
        maxspace = min(maxspace, 600) if big else maxspace
        pool = ['x{}'.format(k) for k in range(41 if big else 17)]
        domain_len, depth, maxcons = min(domain_len, 3), 1, max(maxcons, rng.choice([8, 20, 40]) if big else 8)
        mincons = max(mincons, maxcons // 2 if big else 0)
        names = pool[:nv] if rng.random() < 0.6 else rng.sample(pool, nv)
    elif shape < 0.12:      # few variables, one of them with many values
        nv = max(minvars, rng.randint(1, 2))
        names = rng.sample(pool, nv)
    else:
        names = rng.sample(pool, nv)
    pool_params = []
    if params and rng.random() < 0.35:
        pool_params = [['par{}'.format(i), rng.choice([-3, -2, -1, 0, 1, 2, 3, 5])] for i in range(rng.randint(1, 2))]
    vars_, space = [], 1
    for n in names:
        room = max(1, maxspace // space)
        dom, kind = gen_domain(rng, 1 if nv > 16 and rng.random() < 0.65 else min(domain_len, room))
        if 0.06 <= shape < 0.12 and n == names[-1] and room > 20:
            dom = rng.sample(range(-150, 300), rng.randint(15, min(room, 120)))
            kind = rng.choice(['list', 'tuple', 'gen'])
        if len(dom) > room:
            dom, kind = dom[:1], 'list'
        if rng.random() < empty:
            dom, kind = [], 'list'
        space *= max(1, len(dom))
        vars_.append([n, dom, kind])
    cons = []
    pn = [p[0] for p in pool_params]
    spec = {'vars': vars_, 'params': pool_params, 'cons': cons}
    # most models keep one assignment a solution, so that many constraints do not just mean no solution
    planted = None
    if rng.random() < 0.75 and all(v[1] for v in vars_):
        planted = {v[0]: rng.choice(v[1]) for v in vars_}
    check = RefModel({'vars': vars_, 'params': pool_params, 'cons': []})
    wide = shape < 0.06 and rng.random() < 0.6      # a constraint over (nearly) all of the many variables
    for j in range(rng.randint(max(mincons, int(wide)), maxcons)):
        for _ in range(8):
            if wide and j == 0:
                over = rng.sample(names, nv - rng.choice([0, 0, 1, 2]))
                c = ['expr', _linear(rng, over, [len(over) // 2, len(over), 0, 1, 2, 3])]
            else:
                c = gen_constraint(rng, vars_, pn, user=user, ad=ad, consts=consts, depth=depth)
            if planted is None or check.compile(c)[1](planted):
                cons.append(c)
                if shapes and rng.random() < 0.02:
                    cons.append(c)
                break
    if shapes and maxcons and rng.random() < 0.06:
        cons.extend(_alike(rng, names, planted, check))
        if rng.random() < 0.3:
            rng.shuffle(cons)
    return spec


def _alike(rng, names, planted, check):
    """A few constraints that look alike: one long side in common, another comparison or bound or last term."""
    subset = rng.sample(names, min(len(names), rng.choice([1, 2, 3, 4])))
    terms = [['v', n] for n in subset]
    for _ in range(rng.choice([1, 4, 12, 30])):
        terms.append(['mul', ['c', rng.choice([1, 2, 3, -1, -2])], ['v', rng.choice(subset)]])
    left = terms[0]
    for t in terms[1:]:
        left = [rng.choice(['add', 'add', 'sub']), left, t]
    out = []
    for _ in range(rng.randint(2, 5)):
        side = left if rng.random() < 0.6 else [rng.choice(['add', 'sub']), left, ['v', rng.choice(subset)]]
        middle = ev(side, planted, {}) if planted else rng.choice([0, 0, 1, 5, -5])
        c = ['expr', [rng.choice(['lt', 'le', 'gt', 'ge', 'ne', 'le', 'ge']), side, ['c', middle + rng.choice([-6, -2, -1, 0, 0, 1, 2, 6])]]]
        if planted is None or check.compile(c)[1](planted):
            out.append(c)
    return out


def gen_constraint(rng, vars_, pn, user=True, ad=True, consts=True, depth=2, nvars=None):
    names = [v[0] for v in vars_]
    r = rng.random()
    if ad and r < 0.2:
        k = rng.randint(1, len(names))
        return ['ad', rng.sample(names, k)]
    if consts and r < 0.23:
        return ['bool', True]
    k = nvars or min(len(names), rng.choice([1, 2, 2, 2, 3, 3, 4] if rng.random() < 0.93 else [5, 7, 10]))
    subset = rng.sample(names, k)
    if rng.random() < 0.35:
        # values taken from the domains make relations that are neither always true nor always false
        vals = [v for x in vars_ if x[0] in subset for v in x[1]] or [0]
        cs = [rng.choice(vals) for _ in range(4)] + [0, 1, 2, -1]
    else:
        cs = CONSTS
    for _ in range(20):
        r = rng.random()
        if r < 0.30:
            f = _linear(rng, subset, cs)
        elif r < 0.38 and k >= 2:
            a, b = subset[0], subset[1]
            f = ['and', ['ne', ['v', b], ['c', 0]],
                 [rng.choice(COMPARE), [rng.choice(['div', 'mod']), ['v', a], ['v', b]], ['c', rng.choice([0, 1, 2])]]]
        else:
            f = FormulaGen(rng, subset, pn, total=True, consts=cs).relation(depth)
        if variables(f):
            break
    else:
        f = ['ge', ['v', subset[0]], ['c', 0]]
    if rng.random() < 0.08:
        # a number: zero is false, any other is true
        g = f[1] if f[0] in COMPARE else f
        if variables(g) and g[0] != 'c':
            f = ['sub', g, ['c', rng.choice(cs)]] if rng.random() < 0.5 else g
    if user and rng.random() < 0.15:
        return ['user', f, sorted(variables(f))]
    return ['expr', f]


def _linear(rng, subset, cs):
    terms = []
    for n in subset:
        co = rng.choice([1, 1, 1, -1, 2, 3, -2])
        t = ['v', n]
        if co != 1:
            t = ['mul', t, ['c', co]] if rng.random() < 0.5 else ['mul', ['c', co], t]
        terms.append(t)
    rng.shuffle(terms)
    left = terms[0]
    for t in terms[1:]:
        left = [rng.choice(['add', 'add', 'sub']), left, t]
    return [rng.choice(COMPARE), left, ['c', rng.choice(cs)]]
