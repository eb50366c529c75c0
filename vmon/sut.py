"""Driving satisfy through its public interface (nothing here looks inside)."""
import collections
import functools
import importlib
import operator
import os
import sys

from . import ref
from .core import Violation, HarnessError

_cache = {}


def S():
    """The satisfy modules, imported from the working tree on first use."""
    if 'ns' not in _cache:
        import satisfy
        src = os.path.realpath(os.path.join(os.environ.get('VMON_REPO', '/repo'), 'src')) + os.sep
        if not os.path.realpath(satisfy.__file__).startswith(src):
            raise HarnessError('satisfy imported from ' + satisfy.__file__)
        ns = collections.namedtuple('S', 'satisfy expression constraint model objective solver utils')(
            satisfy, *[importlib.import_module('satisfy.' + m) for m in
                       ('expression', 'constraint', 'model', 'objective', 'solver', 'utils')])
        _cache['ns'] = ns
    return _cache['ns']


OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'mod': operator.mod,
       'pow': operator.pow, 'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le,
       'gt': operator.gt, 'ge': operator.ge, 'and': operator.and_, 'or': operator.or_}
IOPS = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv,
        'mod': operator.imod, 'and': operator.iand, 'or': operator.ior}


def build(f, var, par):
    """The satisfy expression (or int) of a formula, written with Python operators."""
    E = S().expression
    k = f[0]
    if k == 'v':
        return var[f[1]]
    if k == 'p':
        return par[f[1]]
    if k == 'c':
        return f[1]
    if k == 'C':
        return E.Const(f[1])
    if k in ('neg', 'pos', 'abs', 'not'):
        a = E.Expression.coerce(build(f[1], var, par))
        return {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'not': E.Not}[k](a)
    if k == 'sum':
        return sum(build(g, var, par) for g in f[1])
    if k == 'Sum':
        return E.Sum([build(g, var, par) for g in f[1]], const=f[2])
    if k == 'Prod':
        return E.Prod([build(g, var, par) for g in f[1]], const=f[2])
    a, b = build(f[1], var, par), build(f[2], var, par)
    if not isinstance(a, E.Expression) and not isinstance(b, E.Expression):
        a = E.Const(a)      # int op int would be Python's business, not satisfy's
    return OPS[k](a, b)


def build_expr(f, var, par):
    return S().expression.Expression.coerce(build(f, var, par))


def make_domain(values, kind):
    if kind == 'range':
        if not values:
            return range(0)
        step = values[1] - values[0] if len(values) > 1 else 1
        return range(values[0], values[0] + step * len(values), step)
    if kind == 'list':
        return list(values)
    if kind == 'tuple':
        return tuple(values)
    if kind == 'set':
        return set(values)
    if kind == 'frozenset':
        return frozenset(values)
    if kind == 'keys':
        return dict.fromkeys(values).keys()
    if kind == 'iter':
        return iter(list(values))
    if kind == 'gen':
        return (v for v in list(values))
    raise HarnessError(kind)


def user_constraint_class():
    """A user-defined Constraint whose relation is a reference formula; `log` receives its evaluations."""
    if 'user' not in _cache:
        class UserConstraint(S().constraint.Constraint):
            def __init__(self, names, pred, log=None, tag=None):
                super().__init__(names)
                self.pred, self.log, self.tag = pred, log, tag

            def __repr__(self):
                # all look the same
                return 'UserConstraint()'

            def evaluate(self, substitution):
                if self.log is not None:
                    self.log(self, substitution)
                return self.pred(substitution)
        _cache['user'] = UserConstraint
    return _cache['user']


class Built:
    """A satisfy model made from a description."""

    def __init__(self, spec, log=None, order=None, cons=None, early=None):
        s = S()
        self.spec = spec
        self.model = s.model.Model()
        if early is not None:
            early(self.model)
        self.par, self.var = {}, {}
        self.mentions = sum(len(n) for n, _, _ in spec['vars']) + len(spec['cons'])
        self.refpar = dict(spec.get('params', []))
        for name, value in spec.get('params', []):
            self.par[name] = self.model.add_parameter(value, name=name)
        for name, dom, kind in spec['vars']:
            if kind == 'bool':
                self.var[name] = self.model.add_bool_variable(name=name)
            else:
                self.var[name] = self.model.add_int_variable(make_domain(dom, kind), name=name)
        self.log = log
        for i, c in enumerate(spec['cons'] if cons is None else cons):
            self.add(c, tag=i)

    def named(self):
        """The variables a constraint mentions: those declared or, for every third, others of the same names."""
        self.mentions += 1
        if self.mentions % 3:
            return self.var
        return {n: S().expression.Variable(n) for n in self.var}

    def constraint(self, c, tag=None):
        """A constraint *object* (for additional_constraints)."""
        s = S()
        if c[0] == 'expr':
            return s.constraint.ExpressionConstraint(build_expr(c[1], self.named(), self.par))
        if c[0] == 'ad':
            return s.constraint.AllDifferentConstraint(list(c[1]))
        if c[0] == 'bool':
            return s.constraint.ConstConstraint(c[1])
        if c[0] == 'user':
            g, par = ref.fn(c[1]), self.refpar
            return user_constraint_class()(c[2], lambda env, g=g, par=par: bool(g(env, par)), self.log, tag)
        raise HarnessError(c)

    def add(self, c, tag=None):
        if c[0] == 'expr':
            e = build(c[1], self.named(), self.par)
            if c[1][0] in ('and', 'or') and not isinstance(e, S().expression.Expression):
                e = bool(e)     # Const & Const is a number
            self.model.add_constraint(e)
        elif c[0] == 'ad':
            named = self.named()
            self.model.add_all_different_constraint([named[n] for n in c[1]])
        elif c[0] == 'bool':
            self.model.add_constraint(c[1])
        else:
            self.model.add_constraint(self.constraint(c, tag))

    def setpar(self, name, value):
        self.par[name].value = value
        self.refpar[name] = value


POLICIES = ['ORDERED', 'REVERSED', 'RANDOM', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT']


def policy(name):
    return getattr(S().solver.VarSelectionPolicy, name)


def make_solver(cfg, **kw):
    """cfg = [policy name, compile flag]"""
    return S().solver.Solver(var_selection_policy=policy(cfg[0]), compile_constraints=cfg[1], **kw)


def gen_cfg(rng):
    return [rng.choice(POLICIES), rng.random() < 0.65]


def as_tuple(sol, names):
    if not isinstance(sol, dict):
        raise Violation('a solution is not a dict: {!r}'.format(sol))
    if set(sol) != set(names):
        raise Violation('a solution does not assign exactly the variables of the model',
                        solution=sol, variables=list(names))
    return tuple(sol[n] for n in names)


def collect(gen, names, cap, what='solve'):
    """Consume a stream of solutions, at most cap of them."""
    out = []
    for sol in gen:
        out.append(as_tuple(sol, names))
        if len(out) > cap:
            raise Violation('{} yields more than the {} solutions there can be'.format(what, cap),
                            last=out[-1], first=out[:5])
    return out


def collect_opt(gen, names, cap):
    out = []
    for o in gen:
        out.append(as_tuple(o.solution, names))
        if len(out) > cap:
            raise Violation('optimization yields more than the {} solutions there can be'.format(cap))
    return out
