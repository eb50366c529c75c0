"""Verdicts, counters and the check registry."""
import collections
import hashlib
import json


class Violation(Exception):
    """The observed execution breaks the property.  `key` names the mechanism (for known findings)."""
    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message, self.key, self.detail = message, key, detail


class HarnessError(Exception):
    """The machinery itself is at fault: never a verdict about satisfy."""


class Skip(Exception):
    """The generated case lies outside the property's domain: it counts for nothing."""


class Watchdog(BaseException):
    """Wall-clock guard of one case; not a verdict (see runner)."""


class StepBudget(BaseException):
    """The logical step budget of one case is used up."""


class Obs:
    """What the monitors of one check saw."""
    def __init__(self):
        self.counters = collections.Counter()
        self.maxima = {}
        self.distinct = collections.defaultdict(set)
        self.nontrivial_cases = set()
        self.current_nontrivial = False

    def count(self, name, n=1):
        self.counters[name] += n

    def peak(self, name, value):
        if value > self.maxima.get(name, value - 1):
            self.maxima[name] = value

    def see(self, name, value):
        """Record a distinct value (hashed) of some kind of observation."""
        self.distinct[name].add(digest(value))

    def nontrivial(self):
        self.current_nontrivial = True


def digest(value):
    return hashlib.blake2b(repr(value).encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest()


class Check:
    """One property's check.

    cases(tier)        -> number of cases
    gen(rng, i, tier)  -> a JSON-serialisable case
    run(case, obs)     -> None, or raises Violation
    need               -> counters that must reach these minima (quick tier), else the run is inconclusive
    """
    def __init__(self, id, rule, gen, run, quick, thorough, need=None, virtual_clock=False, case_wall=30, env=None,
                 fixed=None, heavy=None):
        self.id, self.rule, self.gen, self.run = id, rule, gen, run
        self.quick, self.thorough = quick, thorough
        self.need = need or {}
        self.virtual_clock = virtual_clock
        self.case_wall = case_wall
        self.env = env or {}
        self.fixed = fixed or (lambda tier: [])   # cases always run before the generated ones
        # heavy(case): a search that may legitimately take very long, so that not ending says nothing
        self.heavy = heavy or (lambda case: False)


REGISTRY = {}


def register(check):
    assert check.id not in REGISTRY
    REGISTRY[check.id] = check
    return check


def canonical(case):
    return json.dumps(case, sort_keys=True, default=repr)


def require(cond, message, key=None, **detail):
    if not cond:
        raise Violation(message, key=key, **detail)
