"""M01..M03, C01: declarations, domains, constant constraints, constraint verdicts."""
import operator
import random
import re
import string

from vmon import ref, sut
from vmon.core import Check, Skip, Violation, register, require

GOOD = ['x', 'y', 'z', 'a1', 'b_2', 'Alpha', 'sum', 'lambda', 'x\u00e9', 'Q9', 'par0', 'X', 'if', 'v0', 'p1', 'x__y']
BAD = ['', '1x', '_x', 'x-y', 'x y', '\u00e9x', 'x\n', 'x:y', '.x', 'x.', ' x', 'x ', '_v0', '_p1', '0', '$a', 'a$', 'x\t',
       'a\nb', '\u03b1', 'x+1', '_', 'a,b', '\nx', 'x\r', 'x\n\n', 'a\u00a0']


def legal(name):
    return name != '' and name[0] in string.ascii_letters and all(c == '_' or c.isalnum() for c in name[1:])


def gen_m01(rng, i, tier):
    ops = []
    for _ in range(rng.randint(6, 22)):
        r = rng.random()
        name = rng.choice(GOOD) if rng.random() < 0.72 else rng.choice(BAD)
        if rng.random() < 0.08:
            # long names, that differ or become illegal late only
            stem = rng.choice(['x', 'ab', 'a_1'])
            name = (stem * 300)[:rng.choice([7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257])] + rng.choice(['', '', 'y', '-', ' ', '\u00e9', '.b', '\n'])
        if rng.random() < 0.2:
            name = None
        elif rng.random() < 0.12:
            # a name of the form of the generated ones (the last one generated, with the same or a following number)
            name = '@{}:{}:{}'.format(rng.choice(['asis', 'plain']), rng.choice(['v', 'v', 'p', 'x', 'var']), rng.choice([0, 0, 1, 1, 2, 3]))
        if r < 0.36:
            dom, kind = ref.gen_domain(rng, 3, rng.choice(['range', 'list', 'tuple', 'set', 'gen', 'iter', 'keys']))
            if rng.random() < 0.06:
                dom, kind = [], rng.choice(['list', 'tuple', 'gen', 'set'])
            if rng.random() < 0.15:
                dom, kind = rng.choice([[1, 2, 1], [0, 0], [5, 1, 2, 5], [3, 3, 4], [7, 8, 9, 8],
                                        [1, True], [0, 2, False], [1, 1.0], [2, 2.0, 3], [3, 0, 1, 2, True]]), rng.choice(
                    ['list', 'tuple', 'gen', 'iter'])
            ops.append(['int', name, dom, kind])
        elif r < 0.44:
            ops.append(['bool', name])
        elif r < 0.56:
            ops.append(['par', name, rng.choice([-2, 0, 1, 3])])
        elif r < 0.80:
            ops.append(['con', rng.randrange(10**9), rng.random() < 0.3, rng.choice(['expr', 'user', 'ad'])])
        elif r < 0.86:
            ops.append(['junk', rng.randrange(8)])
        elif r < 0.90:
            ops.append(['setpar', rng.randrange(50), rng.choice([-3, -1, 0, 2, 5]), rng.choice(['get', 'listing', 'own'])])
        elif r < 0.95:
            ops.append(['solve'])
        else:
            ops.append(['optimize', rng.choice('mM')])
    return {'ops': ops}


JUNK = [lambda: 5, lambda: 'x < y', lambda: None, lambda: object(), lambda: [True], lambda: 1.5, lambda: (lambda s: True),
        lambda: 0]


def run_m01(case, obs):
    s = sut.S()
    E = s.expression
    model = s.model.Model()
    declared = []           # (name, 'var', domain) or (name, 'par', None)
    objs = {}
    cons_ref = []           # reference constraints
    cons_seen = []          # identities
    values = {}

    def names():
        return [d[0] for d in declared]

    def observe():
        mine = {d[0] for d in declared}
        listing = []
        for name, info in model.variables().items():
            if name not in mine and info.domain is None:
                continue        # a bound parameter of an earlier optimization
            listing.append((name, None if info.domain is None else tuple(info.domain)))
        return listing, [id(c) for c in model.constraints()], bool(model.solvable())

    def expect_listing(when):
        got = observe()
        want = [(d[0], tuple(d[2]) if d[1] == 'var' else None) for d in declared]
        require(got[0] == want, 'the listed declarations are not those accepted, in order ({})'.format(when),
                expected=want, got=got[0])
        return got

    def solutions():
        spec = {'vars': [[d[0], list(d[2]), 'list'] for d in declared if d[1] == 'var'],
                'params': [[k, v] for k, v in values.items()], 'cons': cons_ref}
        return spec, ref.RefModel(spec).solutions()

    def check_solutions():
        spec, want = solutions()
        if len(want) > 4000:
            return
        vn = [v[0] for v in spec['vars']]
        got = sut.collect(sut.make_solver(['ORDERED', True]).solve(model), vn, len(want) + 5)
        obs.count('solution_sets_compared')
        require(sorted(got) == sorted(want), 'solutions are not those of the accepted declarations',
                declared=declared, missing=sorted(set(want) - set(got))[:4], extra=sorted(set(got) - set(want))[:4])

    def space():
        n = 1
        for d in declared:
            if d[1] == 'var':
                n *= max(1, len(d[2]))
        return n

    generated = []
    for op in case['ops']:
        before = observe()
        refused = None
        if op[0] in ('int', 'bool', 'par') and op[1] and op[1].startswith('@'):
            form, letter, k = op[1][1:].split(':')
            m = re.match(r'(.*?)(\d+)$', generated[-1]) if generated else None
            if m and form == 'asis':
                op = [op[0], '{}{}'.format(m.group(1), int(m.group(2)) + int(k))] + op[2:]
            else:
                op = [op[0], '{}{}'.format(m.group(1).strip('_') if m else letter, len(declared) + int(k))] + op[2:]
            obs.count('names_like_generated_ones')
        if op[0] in ('int', 'bool', 'par'):
            name = op[1]
            dom = op[2] if op[0] == 'int' else [0, 1]
            if op[0] != 'par' and space() * max(1, len(dom)) > 1500:
                continue
            taken = {n for n in model.variables()}
            ok = (name is None or (legal(name) and name not in names()))
            if op[0] == 'int' and len(set(dom)) != len(dom):
                ok = False
            container = None
            try:
                if op[0] == 'int':
                    container = sut.make_domain(dom, op[3])
                    if op[3] == 'set':
                        dom = list(container)
                    obj = model.add_int_variable(container, name=name)
                elif op[0] == 'bool':
                    obj = model.add_bool_variable(name=name)
                else:
                    obj = model.add_parameter(op[2], name=name)
            except ValueError as exc:
                refused = exc
            require((refused is None) == ok, 'a legal declaration is refused' if ok else 'an illegal declaration is accepted',
                    operation=op, declared=names(), error=repr(refused))
            if refused is None:
                require(name is None or obj.name == name, 'a declared object has another name', operation=op,
                        got=obj.name)
                require(obj.name not in taken, 'a generated name collides with an existing one', name=obj.name,
                        taken=sorted(taken))
                if op[0] == 'par':
                    require(isinstance(obj, E.Parameter) and obj.value == op[2], 'wrong parameter', operation=op)
                    declared.append((obj.name, 'par', None))
                    values[obj.name] = op[2]
                elif op[0] == 'bool':
                    listed = model.get_var_domain(obj)
                    require(sorted(listed) == [0, 1], 'a boolean variable does not have 0 and 1', domain=listed)
                    declared.append((obj.name, 'var', list(listed)))
                else:
                    declared.append((obj.name, 'var', list(dom)))
                objs[obj.name] = obj
                got = model.get_variable(obj.name)
                require(got.name == obj.name, 'get_variable gives another variable', asked=obj.name, got=got.name)
                require(got is obj and model.variables()[obj.name].variable is obj,
                        'the object listed under a name is not the one declared', asked=obj.name)
                obs.count('accepted')
                if name is None:
                    obs.count('generated_names')
                    generated.append(obj.name)
        elif op[0] == 'con':
            rng = random.Random(op[1])
            vnames = [d[0] for d in declared if d[1] == 'var']
            pnames = [d[0] for d in declared if d[1] == 'par']
            if not vnames:
                continue
            c = ref.gen_constraint(rng, [[d[0], d[2]] for d in declared if d[1] == 'var'], pnames, consts=False,
                                   user=False, ad=False)
            if op[3] == 'ad':
                c = ['ad', rng.sample(vnames, rng.randint(1, len(vnames)))]
            undeclared = op[2]
            var = dict(objs)
            if undeclared:
                like = rng.choice([d[0] for d in declared])       # names close to declared ones, generated ones, ...
                stranger = rng.choice([n for n in ['nope', 'x_undeclared', 'zz', '_v0', '_v1', '_v{}'.format(len(declared)), '_p0', '_p1',
                                                   '_' + like, like + '_', like.lstrip('_'), like[:-1], like + '0', like.swapcase(),
                                                   like.upper(), ' ' + like] if n and n not in names()])
                var[stranger] = E.Variable(stranger)
                if c[0] == 'ad':
                    c[1].insert(rng.randrange(len(c[1]) + 1), stranger)
                else:
                    c = ['expr', ['le', ['add', c[1], ['v', stranger]], ['c', 7]]]
                if rng.random() < 0.3:
                    c = ['ad', [stranger]] if c[0] == 'ad' else ['expr', ['le', ['v', stranger], ['c', 7]]]
            try:
                if c[0] == 'ad':
                    model.add_all_different_constraint([var[n] for n in c[1]])
                elif op[3] == 'user':
                    vs = sorted(ref.variables(c[1]))
                    g = ref.fn(c[1])
                    con = sut.user_constraint_class()(vs, lambda env, g=g: bool(g(env, values)))
                    model.add_constraint(con)
                else:
                    e = sut.build_expr(c[1], var, var)
                    if undeclared and stranger not in list(e.vars()):
                        continue
                    if not list(e.vars()):
                        continue            # decided when added: property M03
                    model.add_constraint(e)
            except ValueError as exc:
                refused = exc
            require((refused is None) == (not undeclared),
                    'a constraint on an undeclared variable is accepted' if undeclared else 'a legal constraint is refused',
                    constraint=c, declared=names(), error=repr(refused))
            if refused is None:
                cons_ref.append(['expr' if c[0] == 'expr' else 'ad', c[1]])
                ids = [id(x) for x in model.constraints()]
                require(ids[:len(before[1])] == before[1] and len(ids) == len(before[1]) + 1,
                        'an accepted constraint is not the new last one', before=len(before[1]), after=len(ids))
                cons_seen.append(ids[-1])
                obs.count('accepted')
        elif op[0] == 'junk':
            try:
                model.add_constraint(JUNK[op[1]]())
                raise Violation('a constraint of the wrong type is accepted', junk=repr(JUNK[op[1]]()))
            except TypeError as exc:
                refused = exc
        elif op[0] == 'setpar':
            pars = [d[0] for d in declared if d[1] == 'par']
            if pars:
                name = pars[op[1] % len(pars)]
                handle = {'get': lambda: model.get_variable(name), 'own': lambda: objs[name],
                          'listing': lambda: model.variables()[name].variable}[op[3]]()
                handle.value = op[2]
                values[name] = op[2]
                require(objs[name].value == op[2] and model.get_variable(name).value == op[2],
                        'a parameter given a value under its name keeps another', name=name, op=op)
                obs.count('values_given_by_name')
        elif op[0] == 'solve':
            check_solutions()
        elif op[0] == 'optimize':
            vn = [d[0] for d in declared if d[1] == 'var']
            if vn:
                kind = s.objective.Minimize if op[1] == 'm' else s.objective.Maximize
                sut.make_solver(['ORDERED', True]).optimal_solution(model, kind(+objs[vn[0]]))
                obs.count('optimizations')
        if refused is not None:
            obs.count('refused')
            after = observe()
            require(after == before, 'a refused operation left a trace', operation=op, before=before, after=after)
            obs.nontrivial()
        expect_listing('after {}'.format(op[0]))
        require(observe()[1] == cons_seen, 'the constraints listed are not those accepted, in order')
    check_solutions()


register(Check(
    'M01', 'histories of 6-22 declarations (legal, illegal, repeated and generated names; all kinds of domain, with '
           'and without duplicates), constraints (declared or undeclared variables, wrong types), solves and '
           'optimizations; after every operation the listings are compared with the accepted history, at the end the '
           'solutions too; non-trivial: at least one refusal',
    gen_m01, run_m01, quick=16000, thorough=200000,
    need={'accepted': 5000, 'refused': 3000, 'generated_names': 500, 'values_given_by_name': 500, 'solution_sets_compared': 1500}))


# ------------------------------------------------------------------ M02
def gen_m02(rng, i, tier):
    vars_ = []
    for j in range(rng.randint(1, 3)):
        kind = rng.choice(ref.DOMAIN_KINDS + ['bool', 'shared', 'mutlist', 'mutset', 'mutdict', 'mutlist', 'deque'])
        base = {'mutlist': 'list', 'shared': 'list', 'mutset': 'set', 'mutdict': 'keys', 'deque': 'list'}.get(kind, kind)
        dom, _ = ref.gen_domain(rng, 7, base)
        if rng.random() < 0.04:
            dom = []
        if base == 'range' and not dom:
            dom = [0]
        vars_.append([rng.choice([None, 'v{}'.format(j)]), dom, kind])
    if rng.random() < 0.15:
        j = rng.randrange(len(vars_))
        vars_[j][1:] = [rng.sample(range(-30, 90), rng.choice([17, 33, 60, 70])), rng.choice(['list', 'tuple', 'iter', 'gen', 'deque', 'mutlist'])]
        vars_ = vars_[:2]
    return {'vars': vars_, 'cfg': sut.gen_cfg(rng), 'accept': rng.randrange(10**6), 'mutations': [rng.randrange(5) for _ in range(6)],
            'when': rng.choice(['before', 'during', 'both'])}


def run_m02(case, obs):
    import collections
    s = sut.S()
    model = s.model.Model()
    shared = None
    mutable = []
    vars_, want = [], []
    for name, dom, kind in case['vars']:
        if kind == 'bool':
            v = model.add_bool_variable(name=name)
            d = list(model.get_var_domain(v))
            require(sorted(map(repr, d)) == ['0', '1'], 'a boolean variable does not have exactly 0 and 1', got=d)
            vars_.append(v)
            want.append(d)
            obs.count('domains')
            continue
        if kind == 'shared':
            if shared is None:
                shared = list(dom)
                mutable.append(shared)
            box = shared
        elif kind == 'mutlist':
            box = list(dom)
            mutable.append(box)
        elif kind == 'mutset':
            box = set(dom)
            mutable.append(box)
        elif kind == 'mutdict':
            d = dict.fromkeys(dom)
            box = d.keys()
            mutable.append(d)
        elif kind == 'deque':
            box = collections.deque(dom)
            mutable.append(box)
        else:
            box = sut.make_domain(dom, kind)
        values = list(dom) if kind in ('iter', 'gen') else list(box)
        v = model.add_int_variable(box, name=name)
        vars_.append(v)
        want.append(values)
        obs.count('domains')
        if len(values) > 16:
            obs.count('long_domains')
        obs.see('kind', kind)

    def look(when):
        for v, w in zip(vars_, want):
            for key in (v, v.name):
                got = model.get_var_domain(key)
                require(list(map(repr, got)) == list(map(repr, w)), 'a domain is not what the caller supplied ({})'.format(when),
                        expected=w, got=list(got))
            require(list(model.variables()[v.name].domain) == w, 'variables() shows another domain ({})'.format(when))
            obs.count('domain_observations')

    def mutate():
        for box, m in zip(mutable, case['mutations'] * 2):
            obs.count('mutations')
            if isinstance(box, dict):
                [lambda: box.update({777: None}), box.clear, lambda: box.pop(next(iter(box), None), None),
                 lambda: box.update({-777: None}), box.clear][m]()
            elif isinstance(box, set):
                [lambda: box.add(777), box.clear, lambda: box.discard(next(iter(box), None)), lambda: box.update({5, 6}),
                 box.clear][m]()
            else:
                [lambda: box.append(777), box.clear, lambda: box and box.pop(), lambda: box.reverse(),
                 lambda: box.extend([777, 778])][m]()
    look('after declaration')
    if case['when'] in ('before', 'both'):
        mutate()
        look('after the caller changed its container')
    names = [v.name for v in vars_]
    spec = {'vars': [[n, w, 'list'] for n, w in zip(names, want)], 'cons': [], 'params': []}
    expected = ref.RefModel(spec).solutions()
    gen = sut.make_solver(case['cfg']).solve(model)
    got = []
    for k, sol in enumerate(gen):
        got.append(sut.as_tuple(sol, names))
        if k == 0 and case['when'] in ('during', 'both'):
            mutate()
        require(len(got) <= len(expected), 'more solutions than the product of the domains')
    require(sorted(got) == sorted(expected), 'the solver does not try exactly the values of the domains',
            missing=sorted(set(expected) - set(got))[:5], extra=sorted(set(got) - set(expected))[:5])
    obs.count('solves')
    look('after solving')
    again = sut.collect(sut.make_solver(['REVERSED', True]).solve(model), names, len(expected) + 1)
    require(sorted(again) == sorted(expected), 'a second solve finds other values')
    # a one-variable relation accepting arbitrary values of each domain: those are tried and no others
    rng = random.Random(case['accept'])
    accepted = [{v for v in w if rng.random() < 0.6} for w in want]
    for v, acc in zip(vars_, accepted):
        model.add_constraint(sut.user_constraint_class()([v.name], lambda env, n=v.name, acc=acc: env[n] in acc))
    filtered = [t for t in expected if all(x in acc for x, acc in zip(t, accepted))]
    again = sut.collect(sut.make_solver(case['cfg']).solve(model), names, len(expected) + 1)
    require(sorted(again) == sorted(filtered), 'the values tried are not those of the domain that the constraints allow',
            missing=sorted(set(filtered) - set(again))[:5], extra=sorted(set(again) - set(filtered))[:5])
    look('after solving twice')
    if any(len(w) > 1 for w in want):
        obs.nontrivial()


register(Check(
    'M02', 'one to three variables with domains from ranges, lists, tuples, sets, dict views, deques, iterators and '
           'generators; the container is changed after declaration and during a solve; domain observations and the '
           'unconstrained solutions are compared with the values supplied',
    gen_m02, run_m02, quick=12000, thorough=150000,
    need={'mutations': 1500, 'solves': 3000, 'domain_observations': 10000, 'long_domains': 800}))


# ------------------------------------------------------------------ M03
def gen_m03(rng, i, tier):
    spec = ref.gen_model(rng, maxspace=60, maxvars=3, maxcons=0, params=True, awkward=0, empty=0)
    if not spec['params']:
        spec['params'] = [['par0', rng.choice([-1, 0, 1, 2])]]
    ops = []
    dead = False
    early = []          # constants added to the model before anything is declared
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 2)):
            k = rng.choice(['bool', 'constc', 'not', 'user', 'ad0', 'number'])
            value = True if k == 'ad0' else rng.random() < 0.6
            dead = dead or not value
            early.append([k, value])
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < 0.55:
            k = rng.choice(['bool', 'constc', 'not', 'param', 'zero', 'neg', 'and', 'user', 'sum', 'paramnot', 'ad0', 'number', 'number', 'difference',
                            'product', 'usernumber', 'folded:' + rng.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])])
            value = True if k == 'ad0' else rng.random() < 0.72
            dead = dead or not value
            ops.append(['const', k, value])
        elif r < 0.75:
            ops.append(['con', ref.gen_constraint(rng, spec['vars'], [p[0] for p in spec['params']], consts=False,
                                                  depth=1)])
        elif r < 0.9 or dead:
            ops.append(['look', sut.gen_cfg(rng), rng.choice('mM')])
        else:
            ops.append(['flag', rng.random() < 0.5])
            if rng.random() < 0.3:
                ops.append(['look', sut.gen_cfg(rng), rng.choice('mM')])
    flags = [op for op in ops if op[0] == 'flag']
    if flags and dead:
        # "set solvable again" is about the flag alone: keep it apart from false constants
        ops = [op for op in ops if op[0] != 'flag' or not op[1]]
    if rng.random() < 0.3 and not dead:
        ops += [['flag', False], ['look', sut.gen_cfg(rng), 'm'], ['flag', True]]
    ops.append(['look', sut.gen_cfg(rng), rng.choice('mM')])
    return {'spec': spec, 'ops': ops, 'early': early}


def constant_constraint(s, b, kind, value):
    """A variable-free constraint with the wanted truth value."""
    E = s.expression
    if b is not None:
        par = b.par['par0']
        v = par.value
        var = next(iter(b.var.values()))
    if kind == 'bool':
        return value
    if kind == 'constc':
        return s.constraint.ConstConstraint(value)
    if kind == 'not':
        return E.Not(E.Const(0 if value else 4))
    if kind == 'param':
        return par == (v if value else v + 1)
    if kind == 'paramnot':
        return E.Not(par > (v if value else v - 1))
    if kind == 'zero':
        return var * 0 == (0 if value else 1)
    if kind == 'neg':
        return -E.Const(3) < (0 if value else -3)
    if kind == 'and':
        return (par <= v) & (E.Not(E.Const(0 if value else 1)))
    if kind == 'sum':
        return sum([par, par, par]) >= (3 * v if value else 3 * v + 1)
    if kind == 'user':
        return sut.user_constraint_class()([], lambda env: value)
    # relations that are numbers: zero is false, any other is true
    if kind == 'number':
        return E.Const(-2 if value else 0)
    if kind == 'difference':
        return par - (v + 3 if value else v)
    if kind == 'product':
        return (abs(par) + 1) * (2 if value else 0)
    if kind == 'usernumber':
        return sut.user_constraint_class()([], lambda env: 'yes' if value else 0)
    if kind == 'ad0':
        return s.constraint.AllDifferentConstraint([])
    if kind.startswith('folded:'):
        # both sides become constants while the relation is written, so that nothing of an expression is left
        left, right = {('eq', True): (0, 0), ('eq', False): (0, 3), ('ne', True): (0, -2), ('ne', False): (0, 0), ('lt', True): (0, 4),
                       ('lt', False): (0, 0), ('le', True): (0, 0), ('le', False): (0, -1), ('gt', True): (0, -3), ('gt', False): (0, 0),
                       ('ge', True): (0, 0), ('ge', False): (0, 5)}[kind[7:], value]
        return getattr(operator, kind[7:])(0 * var, (0 * var if not right else E.Const(right)))
    raise AssertionError(kind)


def run_m03(case, obs):
    s = sut.S()
    spec = case['spec']

    def early(model):
        for kind, value in case['early']:
            model.add_constraint(constant_constraint(s, None, kind, value))
            obs.count('constant_early')
    b = sut.Built(spec, cons=[], early=early)
    names = [v[0] for v in spec['vars']]
    flag, false_constant = True, any(not value for _, value in case['early'])
    cons = []

    def look(cfg, mm):
        solvable = flag and not false_constant
        require(bool(model.solvable()) == solvable, 'solvable() is wrong', expected=solvable)
        want = ref.RefModel(dict(spec, cons=cons)).solutions() if solvable else []
        solver = sut.make_solver(cfg)
        got = sut.collect(solver.solve(model), names, ref.RefModel(spec).space())
        obs.count('solves_unsolvable' if not solvable else 'solves')
        require(sorted(got) == sorted(want), 'wrong solutions for a model that is {}'.format(
            'solvable' if solvable else 'not solvable'), got=got[:5], expected=want[:5])
        kind = s.objective.Minimize if mm == 'm' else s.objective.Maximize
        res = solver.optimal_solution(model, kind(+b.var[names[0]]))
        if not want:
            require(res.solution is None and not res.is_optimal,
                    'an optimum is reported for a model without solutions', result=repr(res))
            require(list(solver.optimize(model, kind(+b.var[names[0]]))) == [], 'optimize yields without solutions')
            obs.count('optimizations_without_solution')
        else:
            require(res.solution is not None and res.is_optimal and sut.as_tuple(res.solution, names) in want,
                    'no optimum for a solvable model', result=repr(res))
    model = b.model
    for op in case['ops']:
        if op[0] == 'const':
            before = len(list(model.constraints()))
            model.add_constraint(constant_constraint(s, b, op[1], op[2]))
            obs.count('constant_true' if op[2] else 'constant_false')
            if op[2]:
                require(bool(model.solvable()) == (flag and not false_constant),
                        'a true constant constraint changes solvability')
            else:
                false_constant = True
                obs.nontrivial()
        elif op[0] == 'con':
            if op[1][0] == 'expr':
                if not list(sut.build_expr(op[1][1], b.var, b.par).vars()):
                    continue
            b.add(op[1])
            cons.append(op[1])
        elif op[0] == 'flag':
            model.set_solvable(op[1])
            flag = op[1]
            obs.count('flag_changes')
            obs.nontrivial()
        else:
            look(op[1], op[2])


register(Check(
    'M03', 'histories of constant constraints (fifteen ways of writing them), ordinary constraints, flag changes and '
           'solves/optimizations, judged by a two-bit reference and enumeration',
    gen_m03, run_m03, quick=16000, thorough=150000,
    need={'solves': 1500, 'solves_unsolvable': 1500, 'constant_true': 3000, 'constant_false': 1500, 'flag_changes': 800}))


# ------------------------------------------------------------------ C01
def gen_c01(rng, i, tier):
    names = rng.sample(ref.PLAIN, 4) if rng.random() < 0.85 else rng.sample(ref.AWKWARD, 4)
    pars = ['par0', 'par1']
    cons = []
    vars_ = [[n, [-1, 0, 1, 2]] for n in names]
    for _ in range(12):
        r = rng.random()
        if r < 0.25:
            k = rng.randint(0, 4)
            vs = rng.sample(names, k)
            if vs and rng.random() < 0.3:
                vs.append(rng.choice(vs))
            cons.append(['ad', vs])
        elif r < 0.30:
            cons.append(['bool', rng.random() < 0.5])
        elif r < 0.42:
            g = ref.FormulaGen(rng, names, pars, total=True)
            f = g.relation(2)
            cons.append(['user', f, sorted(ref.variables(f))])
        else:
            g = ref.FormulaGen(rng, names, pars if rng.random() < 0.4 else [], total=rng.random() < 0.7)
            cons.append(['expr', g.relation(rng.choice([0, 1, 2, 3])) if rng.random() < 0.8 else g.any(3)])
    if rng.random() < 0.15:
        # a constraint over many variables
        names = names + ['w{}'.format(k) for k in range(rng.choice([2, 6, 10, 30, 60]))]
        if rng.random() < 0.7:
            cons[0] = ['ad', rng.sample(names, rng.randint(len(names) - 3, len(names)))]
        else:
            f = ['v', names[0]]
            for n in names[1:]:
                f = [rng.choice(['add', 'sub', 'add']), f, ['v', n]]
            cons[0] = ['expr', [rng.choice(['le', 'ge', 'ne']), f, ['c', rng.choice([0, 1, len(names)])]]]
    return {'names': names, 'par': {p: rng.choice([-2, 0, 1, 3]) for p in pars}, 'cons': cons,
            'seed': rng.randrange(10**9)}


def run_c01(case, obs):
    s = sut.S()
    E = s.expression
    rng = random.Random(case['seed'])
    par = case['par']
    var = {n: E.Variable(n) for n in case['names']}
    parobj = {k: E.Parameter(k, v) for k, v in par.items()}
    for c in case['cons']:
        if c[0] == 'ad':
            con = s.constraint.AllDifferentConstraint(list(c[1]))
            occurring = set(c[1])
            value = lambda env: len({env[n] for n in occurring}) == len(occurring)
        elif c[0] == 'bool':
            con = s.constraint.ConstConstraint(c[1])
            occurring = set()
            value = lambda env: c[1]
        else:
            occurring = set(ref.variables(c[1]))
            value = lambda env: bool(ref.ev(c[1], env, par))
            full = [{n: rng.choice([-1, 0, 1, 2, 3]) for n in occurring} for _ in range(6)]
            ok = False
            for env in full:
                try:
                    ref.ev(c[1], env, par, strict=True)
                    ok = True
                except ref.Undefined:
                    pass
            if not ok:
                continue
            if c[0] == 'user':
                con = sut.user_constraint_class()(c[2], value)
            else:
                con = s.constraint.ExpressionConstraint(sut.build_expr(c[1], var, parobj))
        reported = set(con.vars())
        require(reported <= occurring, 'a constraint depends on a variable it does not mention', constraint=c,
                reported=sorted(reported))
        if c[0] in ('ad', 'user', 'bool'):
            require(reported == occurring, 'wrong variables of a constraint', constraint=c, reported=sorted(reported))
        obs.count('constraints')
        queries = []
        for _ in range(10):
            r = rng.random()
            if r < 0.45:
                bound = set(occurring)
            elif r < 0.75 and occurring:
                bound = set(occurring) - {rng.choice(sorted(occurring))}
            else:
                bound = {n for n in case['names'] if rng.random() < 0.5}
            if rng.random() < 0.5:
                bound |= {n for n in case['names'] if rng.random() < 0.5}
            sub = {n: rng.choice([-1, 0, 1, 2, 3]) for n in bound}
            if len(occurring) > 5 and rng.random() < 0.75:
                # all different, or all but two, or three
                pool = rng.choice([range(len(sub)), range(-len(sub), len(sub)), range(0, 7 * len(sub), 7), range(-10**6, 10**6, 999)])
                sub = dict(zip(sub, rng.sample(pool, len(sub))))
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    a, b = rng.sample(sorted(sub), 2) if len(sub) > 1 else (None, None)
                    if a:
                        sub[a] = sub[b]
                obs.count('wide_assignments')
            elif rng.random() < 0.2 and sub:
                v = rng.choice([0, 1])
                sub = {n: v for n in sub}
            if rng.random() < 0.2:
                sub['unrelated_'] = rng.choice([0, 1])
            if c[0] == 'ad' and rng.random() < 0.15:
                # equal values need not look alike
                sub = {n: rng.choice([v, float(v), bool(v) if v in (0, 1) else v]) for n, v in sub.items()}
                obs.count('values_of_several_types')
            elif c[0] == 'ad' and rng.random() < 0.15:
                # nor can they always be put in an order
                sub = {n: rng.choice([v, str(v), (v,), None if v == 0 else v, 'a', 1j]) for n, v in sub.items()}
                obs.count('values_without_order')
            env = {n: sub.get(n, 0) for n in occurring}
            if reported <= set(sub):
                try:
                    want = not value(env)
                except ref.Undefined:
                    continue
                obs.count('total_violated' if want else 'total_satisfied')
            else:
                want = False
                obs.count('partial')
            queries.append((sub, want))
        rng.shuffle(queries)
        for phase in ('not compiled', 'compiled', 'compiled twice'):
            if phase != 'not compiled':
                con.compile()
            for sub, want in queries:
                got = con.unsatisfied(dict(sub))
                obs.count('verdicts')
                require(bool(got) == want, 'wrong verdict of a constraint ({})'.format(phase), constraint=c,
                        assignment=sub, params=par, expected_unsatisfied=want, got=repr(got))
                free = set(con.free_vars(dict(sub)))
                require(free == reported - set(sub), 'wrong free variables of a constraint ({})'.format(phase),
                        constraint=c, assignment=sub, free=sorted(free))
                if reported <= set(sub):
                    require(bool(con.evaluate(dict(sub))) == (not want), 'evaluate contradicts unsatisfied ({})'.format(phase),
                            constraint=c, assignment=sub)
            require(set(con.vars()) == reported, 'a constraint changes its variables ({})'.format(phase), constraint=c)
        if len(occurring) > 1:
            obs.nontrivial()


register(Check(
    'C01', 'twelve constraints per case (expression, all-different with repetitions, constant, user-defined), each asked '
           'under ten partial or total assignments with unrelated bindings (some over up to 64 variables), before and after compilation',
    gen_c01, run_c01, quick=6000, thorough=100000,
    need={'verdicts': 100000, 'partial': 10000, 'total_violated': 10000, 'total_satisfied': 10000, 'wide_assignments': 2000}))


# ------------------------------------------------------------------ M04
WRONG = {'int': 5, 'zero': 0, 'none': None, 'bool': True, 'text': 'x', 'list': ['x'], 'float': 1.5, 'object': object(), 'type': int,
         'function': len, 'empty': (), 'bytes': b'x', 'dict': {'x': 1}}
PLACES = ['expression-constraint', 'minimize', 'maximize', 'optimize', 'optimal', 'optimize-list', 'optimal-list', 'variable-name',
          'parameter-name', 'declared-name', 'domain', 'unhashable', 'policy', 'missing', 'missing-compiled', 'timer']


def gen_m04(rng, i, tier):
    spec = ref.gen_model(rng, maxspace=120, maxvars=4, params=True, empty=0.02)
    return {'spec': spec, 'cfg': sut.gen_cfg(rng), 'mm': rng.choice('mM'),
            'ops': [[rng.choice(PLACES), rng.choice(sorted(WRONG)), rng.randrange(10**6)] if rng.random() < 0.85 else ['solve', '', 0]
                    for _ in range(rng.randint(8, 20))]}


def run_m04(case, obs):
    s = sut.S()
    E = s.expression
    spec = case['spec']
    rm = ref.RefModel(spec)
    b = sut.Built(spec)
    names = rm.names
    want = sorted(rm.solutions())
    solver = sut.make_solver(case['cfg'])
    kinds = {'m': s.objective.Minimize, 'M': s.objective.Maximize}
    timer = s.utils.Timer()

    def look():
        return [(n, tuple(i.domain) if i.domain is not None else None) for n, i in b.model.variables().items()], \
            len(list(b.model.constraints())), solver.var_selection_policy, solver.limit, solver.timeout

    def complete(when):
        got = sorted(sut.collect(solver.solve(b.model), names, rm.space()))
        require(got == want, 'other solutions after refused calls', when=when, missing=sorted(set(want) - set(got))[:3],
                extra=sorted(set(got) - set(want))[:3])
        obs.count('solves')
    for place, wrong, seed in case['ops']:
        rng = random.Random(seed)
        thing = WRONG.get(wrong)
        objective = kinds[case['mm']](E.Expression.coerce(b.var[names[0]] if names else 1))
        mixed = [objective] * rng.randint(0, 2)
        mixed.insert(rng.randint(0, len(mixed)), thing if not isinstance(thing, (list, tuple, dict)) else 7)
        before = look()
        expected = TypeError
        if place == 'solve':
            complete('between')
            continue
        if place == 'expression-constraint':
            call = lambda: s.constraint.ExpressionConstraint(thing)
        elif place in ('minimize', 'maximize'):
            call = lambda: kinds[place[0] if place == 'minimize' else 'M'](thing)
        elif place in ('optimize', 'optimal'):
            # neither an objective nor several of them
            odd = thing if wrong in ('int', 'zero', 'none', 'bool', 'float', 'object', 'type', 'function') else 3
            call = (lambda: list(solver.optimize(b.model, odd))) if place == 'optimize' else (lambda: solver.optimal_solution(b.model, odd))
        elif place in ('optimize-list', 'optimal-list'):
            expected = ValueError
            call = (lambda: list(solver.optimize(b.model, list(mixed)))) if place == 'optimize-list' else (
                lambda: solver.optimal_solution(b.model, tuple(mixed)))
        elif place == 'variable-name':
            odd = thing if not isinstance(thing, str) else 3
            call = lambda: E.Variable(odd)
        elif place == 'parameter-name':
            odd = thing if not isinstance(thing, str) else 3
            call = lambda: E.Parameter(odd, 1)
        elif place == 'declared-name':
            odd = thing if not isinstance(thing, str) and thing is not None else 3
            how = rng.randrange(3)
            call = [lambda: b.model.add_int_variable([1, 2], name=odd), lambda: b.model.add_bool_variable(name=odd),
                    lambda: b.model.add_parameter(1, name=odd)][how]
        elif place == 'domain':
            odd = thing if wrong in ('int', 'zero', 'none', 'bool', 'float', 'object', 'type', 'function') else 3
            call = lambda: b.model.add_int_variable(odd, name='strange_one')
        elif place == 'unhashable':
            call = lambda: b.model.add_int_variable([1, [2], 3], name='strange_one')
        elif place == 'policy':
            def call():
                solver.var_selection_policy = thing
        elif place in ('missing', 'missing-compiled'):
            g = ref.FormulaGen(rng, ['x', 'y', 'z'], total=True)
            f = g.arith(2) if hasattr(g, 'arith') else g.any(2)
            f = ['add', f, ['mul', ['c', 2], ['v', 'q']]]      # q is needed whatever the rest is
            env = {n: rng.choice([-1, 0, 1, 2]) for n in 'xyz'}
            e = sut.build_expr(f, {n: E.Variable(n) for n in 'xyzq'}, {})
            expected = E.EvaluationError if place == 'missing' else KeyError
            call = (lambda: e.evaluate(env)) if place == 'missing' else (lambda: e.as_function()(**env))
        else:
            expected = RuntimeError
            if timer.running():
                call = timer.start
                if rng.random() < 0.5:
                    timer.stop()
                    call = timer.stop
            else:
                call = timer.stop
                if rng.random() < 0.5:
                    timer.start()
                    call = timer.start
            count, running = timer.count(), timer.running()
        result = raised = None
        try:
            result = call()
        except Exception as exc:
            raised = exc
        require(raised is not None, 'a thing of the wrong kind is accepted', place=place, thing=repr(thing), result=repr(result))
        require(isinstance(raised, expected), 'a thing of the wrong kind is refused by another error', place=place, thing=repr(thing),
                error=repr(raised), expected=expected.__name__)
        if place == 'timer':
            require((timer.count(), timer.running()) == (count, running), 'a refused call changes the timer')
        require(look() == before, 'a refused call leaves a trace', place=place, thing=repr(thing), before=before, after=look())
        obs.count('refused')
        obs.count('refused_' + place)
        obs.nontrivial()
    complete('at the end')
    if names and want:
        best = solver.optimal_solution(b.model, kinds[case['mm']](+b.var[names[0]]))
        values = [t[0] for t in want]
        require(best.is_optimal and best.solution[names[0]] == (min if case['mm'] == 'm' else max)(values),
                'another optimum after refused calls', got=repr(best))


register(Check(
    'M04', 'a model, a solver and objectives, with things of the wrong kind (numbers, texts, None, containers, types, ...) put in sixteen '
           'places between complete solves: each must be refused by the error of its place, leave no trace and change no solution',
    gen_m04, run_m04, quick=4000, thorough=60000,
    need=dict({'refused_' + p: 1000 for p in PLACES}, solves=4000)))
