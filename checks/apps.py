"""A01..A10: the puzzle and optimization front ends, each against an independent solver of the same puzzle."""
import copy
import importlib
import itertools
import random
import re
import zlib

from vmon import sut
from vmon.clock import CLOCK
from vmon.core import Check, Skip, Violation, register, require

FAST = ['ORDERED', 'REVERSED', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT', 'RANDOM']


def mod(name):
    sut.S()
    return importlib.import_module('satisfy.' + name)


def infinity():
    return sut.S().utils.INFINITY


def options(case):
    """The keyword arguments of a front end's solver."""
    kw = {}
    if case.get('cfg'):
        kw['var_selection_policy'] = sut.policy(case['cfg'][0])
        kw['compile_constraints'] = case['cfg'][1]
    lim = case.get('limit', 'absent')
    if lim == 'inf':
        kw['limit'] = infinity()
    elif lim != 'absent':
        kw['limit'] = lim
    return kw


def spoil(case):
    """In two of five cases the consumer changes every item before it takes the next one."""
    return zlib.crc32(repr(sorted(case.items())).encode('utf-8', 'replace')) % 5 < 2


def gen_appcfg(rng, policies=FAST):
    if rng.random() < 0.4:
        return None
    return [rng.choice(policies), rng.random() < 0.65]


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    return x


def scramble(x):
    """What a consumer may do with an item that is its own."""
    if isinstance(x, (list, tuple)):
        for y in x:
            scramble(y)
        if isinstance(x, list):
            x[:] = ['?'] * (len(x) - len(x) // 3)
    elif isinstance(x, dict):
        for y in x.values():
            scramble(y)
        x.clear()
        x['?'] = '?'


def take(stream, cap, what, spoil=False):
    """All items: as they are at the end, or (spoil) as they were when produced, each changed before the next one."""
    out = []
    for x in stream:
        out.append(copy.deepcopy(x) if spoil else x)
        if spoil:
            scramble(x)
        if len(out) > cap:
            raise Violation('{} yields more than the {} solutions there are'.format(what, cap), extra=repr(out[-1]))
    return out


def judge_stream(got, want, limit, what, obs, **ctx):
    """got: frozen yields, want: the set of the true ones; limit None means all."""
    for g in got:
        require(g in want, '{} yields something that is not a solution'.format(what), got=g, **ctx)
    require(len(set(got)) == len(got), '{} yields a solution twice'.format(what), got=got[:6], **ctx)
    expected = len(want) if limit is None else min(limit, len(want))
    if len(got) != expected:
        raise Violation('{} yields {} of {} solutions (limit {})'.format(what, len(got), len(want), limit),
                        missing=[w for w in sorted(want, key=repr) if w not in got][:3], **ctx)
    obs.count('streams_judged')
    obs.count('solutions_checked', len(got))
    if not want:
        obs.count('without_solution')
    if len(want) > 1:
        obs.count('several_solutions')


def judge_stats(solver, got, want, limit, what):
    st = solver.get_stats()
    require(st.count == len(got), 'statistics of {} do not count the solutions'.format(what), stats=repr(st),
            got=len(got))
    cut = limit is not None and len(got) == limit
    require(st.interrupt == ('limit' if cut else None), '{} reports the wrong interruption'.format(what),
            stats=repr(st), limit=limit, got=len(got))


# ------------------------------------------------------------------ A01, A02: sudoku
def sudoku_peers():
    peers = []
    for i in range(81):
        r, c = divmod(i, 9)
        s = set()
        for j in range(81):
            rr, cc = divmod(j, 9)
            if j != i and (rr == r or cc == c or (rr // 3 == r // 3 and cc // 3 == c // 3)):
                s.add(j)
        peers.append(tuple(sorted(s)))
    return peers


PEERS = sudoku_peers()


def sudoku_solve(cells, cap, order=None, nodes=200000):
    """All completions of 81 cells (0 blank), at most cap; None when it takes too many nodes."""
    cells = list(cells)
    for i in range(81):
        if cells[i] and any(cells[j] == cells[i] for j in PEERS[i]):
            return []
    out, budget = [], [nodes]

    def go():
        budget[0] -= 1
        if budget[0] < 0:
            return False
        best, opts = None, None
        for i in range(81):
            if not cells[i]:
                used = {cells[j] for j in PEERS[i]}
                o = [v for v in range(1, 10) if v not in used]
                if opts is None or len(o) < len(opts):
                    best, opts = i, o
                    if len(o) <= 1:
                        break
        if best is None:
            out.append(tuple(cells))
            return len(out) < cap
        if order is not None:
            order.shuffle(opts)
        for v in opts:
            cells[best] = v
            if not go():
                cells[best] = 0
                return False
            cells[best] = 0
        return True
    go()
    return None if budget[0] < 0 else out


def sudoku_valid(grid):
    full = set(range(1, 10))
    return all(set(row) == full for row in grid) and all({grid[r][c] for r in range(9)} == full for c in range(9)) and \
        all({grid[br + r][bc + c] for r in range(3) for c in range(3)} == full for br in (0, 3, 6) for bc in (0, 3, 6))


def random_grid(rng):
    cells = [0] * 81
    digits = list(range(1, 10))
    rng.shuffle(digits)
    cells[:9] = digits
    return list(sudoku_solve(cells, 1, order=rng)[0])


def unavoidable(rng, grid):
    """Cells of a rectangle whose two digits can be swapped: blanking them gives at least two solutions."""
    found = []
    for r1, r2 in itertools.combinations(range(9), 2):
        for c1, c2 in itertools.combinations(range(9), 2):
            if (r1 // 3 == r2 // 3) == (c1 // 3 == c2 // 3):
                continue
            a, b = grid[r1 * 9 + c1], grid[r1 * 9 + c2]
            if grid[r2 * 9 + c1] == b and grid[r2 * 9 + c2] == a:
                found.append((r1 * 9 + c1, r1 * 9 + c2, r2 * 9 + c1, r2 * 9 + c2))
    return rng.choice(found) if found else ()


def gen_a01(rng, i, tier):
    grid = random_grid(rng)
    kind = rng.choice(['few', 'some', 'some', 'many', 'unavoidable', 'unavoidable', 'full', 'conflict', 'wrong', 'wide',
                       'block', 'lines'])
    cells = list(grid)
    blank = []
    if kind == 'few':
        blank = rng.sample(range(81), rng.randint(1, 12))
    elif kind == 'some':
        blank = rng.sample(range(81), rng.randint(13, 40))
    elif kind == 'many':
        blank = rng.sample(range(81), rng.randint(41, 52))
    elif kind == 'wide':
        blank = rng.sample(range(81), rng.randint(53, 70))
    elif kind == 'unavoidable':
        blank = list(unavoidable(rng, grid)) + list(unavoidable(rng, grid)) + rng.sample(range(81), rng.randint(0, 20))
    elif kind == 'block':
        blocks = rng.sample(range(9), rng.randint(1, 4))
        blank = [j for j in range(81) if (j // 27) * 3 + (j % 9) // 3 in blocks]
    elif kind == 'lines':
        rows, cols = rng.sample(range(9), rng.randint(0, 3)), rng.sample(range(9), rng.randint(0, 3))
        blank = [j for j in range(81) if j // 9 in rows or j % 9 in cols]
    else:
        blank = rng.sample(range(81), rng.choice([0, 1, 5, 20])) if kind != 'full' else []
    for j in blank:
        cells[j] = 0
    if kind == 'conflict':
        j = rng.randrange(81)
        k = rng.choice(PEERS[j])
        cells[j] = cells[k] = rng.randint(1, 9)
    elif kind == 'wrong':
        for j in rng.sample(range(81), rng.randint(20, 45)):
            cells[j] = 0
        left = [j for j in range(81) if cells[j]]
        j = rng.choice(left)
        cells[j] = rng.choice([v for v in range(1, 10) if all(cells[k] != v for k in PEERS[j])] or [cells[j]])
    if rng.random() < 0.3:
        none = set(rng.sample(range(81), 40))
        cells = [None if v == 0 and j in none else v for j, v in enumerate(cells)]
    limit = rng.choice(['inf', 'inf', 'inf', 'absent', None, 1, 2, 3, 10])
    cfg = gen_appcfg(rng)
    if cfg and sum(not v for v in cells) > 30 and cfg[0] not in ('ORDERED', 'MIN_BOUND', 'GROUPS', 'REVERSED'):
        cfg[0] = rng.choice(['ORDERED', 'MIN_BOUND'])      # the others can take for ever, whatever the code does
    return {'cells': cells, 'kind': kind, 'limit': limit, 'cfg': cfg, 'box': rng.choice(['ll', 'tt', 'gt', 'lt']),
            'twice': rng.random() < 0.2}


def run_a01(case, obs):
    cells = case['cells']
    zeros = [v or 0 for v in cells]
    lim = 1 if case['limit'] in ('absent', None) else None if case['limit'] == 'inf' else case['limit']
    cap = 150
    ref = sudoku_solve(zeros, cap + 1)
    if ref is None:
        raise Skip()
    if lim is None and len(ref) > cap:
        lim, case = 20, dict(case, limit=20)
    rows = [cells[9 * r:9 * r + 9] for r in range(9)]
    schema = {'ll': lambda: [list(r) for r in rows], 'tt': lambda: tuple(tuple(r) for r in rows),
              'gt': lambda: (iter(r) for r in rows), 'lt': lambda: [tuple(r) for r in rows]}[case['box']]()
    solver = mod('sudoku').SudokuSolver(schema, **options(case))
    for _ in range(2 if case['twice'] else 1):
        got = [freeze(g) for g in take(solver, cap if lim is None else lim, 'the sudoku solver', spoil(case))]
        for g in got:
            require(len(g) == 9 and all(len(r) == 9 for r in g) and sudoku_valid(g),
                    'the sudoku solver yields an invalid grid', grid=g, cells=zeros)
            require(all(not v or g[j // 9][j % 9] == v for j, v in enumerate(zeros)),
                    'the sudoku solver changes a given', grid=g, cells=zeros)
        want = {tuple(tuple(w[9 * r:9 * r + 9]) for r in range(9)) for w in ref}
        if len(ref) > cap:      # too many to list: validity, distinctness and number only
            require(len(set(got)) == len(got) == lim, 'the sudoku solver yields {} grids, limit {}'.format(
                len(got), lim), cells=zeros)
            obs.count('wide_schemas')
        else:
            judge_stream(got, want, lim, 'the sudoku solver', obs, cells=zeros, kind=case['kind'])
        judge_stats(solver, got, want, lim, 'the sudoku solver')
        obs.count('kind_' + case['kind'])
        if len(want) > 1 and lim is None:
            obs.nontrivial()
            obs.count('all_of_several')
    if case['box'] == 'll':
        require(schema == rows, 'the caller\'s schema was changed')


register(Check(
    'A01', 'random valid grids with few to many blanks, blanked rectangles, blocks and lines (several solutions), full grids, '
           'conflicting or unsolvable givens, 0 and None blanks, every configuration and limit, against an independent '
           'backtracking solver; non-trivial: all of several solutions enumerated',
    gen_a01, run_a01, quick=1500, thorough=30000, case_wall=8,
    heavy=lambda case: sum(not v for v in case['cells']) > 20,
    need={'streams_judged': 350, 'all_of_several': 60, 'without_solution': 40, 'kind_full': 15, 'wide_schemas': 5}))


BADCELLS = [10, -1, 11, 100, '5', '', 'x', 1.5, 0.5, -3, '.', ' ', (1,)]


def gen_a02(rng, i, tier):
    if rng.random() < 0.5:
        grid = random_grid(rng) if rng.random() < 0.3 else [0] * 81
        if rng.random() < 0.5:
            for j in rng.sample(range(81), rng.randint(1, 60)):
                grid[j] = 0
        rows = [grid[9 * r:9 * r + 9] for r in range(9)]
        defect = rng.choice([None, None, 'cell', 'cell', 'short', 'long', 'fewrows', 'manyrows', 'empty', 'swap'])
        if defect == 'cell':
            rows[rng.randrange(9)][rng.randrange(9)] = rng.choice(BADCELLS[:-1])
        elif defect == 'short':
            r = rng.choice([0, 8, rng.randrange(9)])
            rows[r] = rows[r][:rng.choice([8, 8, 3, 0])]
        elif defect == 'long':
            rows[rng.choice([0, 8, rng.randrange(9)])].extend([rng.choice([0, 0, 1, 5])] * rng.choice([1, 1, 2, 9]))
        elif defect == 'fewrows':
            rows = rows[:rng.choice([8, 8, 3, 1, 0])]
        elif defect == 'manyrows':
            rows += [[0] * 9 for _ in range(rng.choice([1, 1, 9]))]
        elif defect == 'empty':
            rows = rng.choice([[], [[]], [[]] * 9])
        elif defect == 'swap':      # the right number of cells in the wrong shape
            a, b = rng.sample(range(9), 2)
            rows[a], rows[b] = rows[a] + [0], rows[b][:-1]
        return {'what': 'sudoku', 'rows': rows, 'defect': defect}
    n, d = rng.randint(0, 6), rng.randint(0, 3)
    small = lambda: rng.choice([0, 1, 2, 3, 5, -1, 10])
    values, caps = [small() for _ in range(n)], [small() for _ in range(d)]
    weights = [[small() for _ in range(d)] for _ in range(n)]
    bad = lambda: rng.choice([1.0, 2.5, '3', '', None, '0x'])
    kinds = [None, None, 'many']
    if n:
        kinds += ['value', 'few', 'rowlong', 'rowshort' if d else 'rowlong']
        if d:
            kinds += ['weight', 'weight']
    if d:
        kinds += ['capacity']
    defect = rng.choice(kinds)
    if defect == 'value':
        values[rng.randrange(n)] = bad()
    elif defect == 'capacity':
        caps[rng.randrange(d)] = bad()
    elif defect == 'weight':
        weights[rng.randrange(n)][rng.randrange(d)] = bad()
    elif defect == 'few':
        weights = weights[:rng.choice([n - 1, rng.randrange(n)])]
    elif defect == 'many':
        weights = weights + [[small() for _ in range(d)] for _ in range(rng.choice([1, 1, 3]))]
    elif defect == 'rowlong':
        weights[rng.choice([0, n - 1, rng.randrange(n)])].append(small())
    elif defect == 'rowshort':
        weights[rng.choice([0, n - 1, rng.randrange(n)])].pop()
    return {'what': 'knapsack', 'values': values, 'caps': caps, 'weights': weights, 'defect': defect,
            'box': rng.choice(['list', 'tuple', 'gen'])}


def boxed(box, values, caps, weights):
    if box == 'list':
        return list(values), list(caps), [list(w) for w in weights]
    if box == 'tuple':
        return tuple(values), tuple(caps), tuple(tuple(w) for w in weights)
    return iter(values), (c for c in caps), (iter(w) for w in weights)


def run_a02(case, obs):
    defect = case['defect']
    if case['what'] == 'sudoku':
        def go():
            next(iter(mod('sudoku').SudokuSolver(case['rows'])), None)
        want = None if defect is None else ValueError
    else:
        def go():
            mod('knapsack').KnapsackOptimizer(*boxed(case['box'], case['values'], case['caps'], case['weights']))()
        want = {None: None, 'value': TypeError, 'capacity': TypeError, 'weight': TypeError}.get(defect, ValueError)
    try:
        go()
        got = None
    except (ValueError, TypeError) as exc:
        got = type(exc)
    obs.count('{}_{}'.format(case['what'], defect))
    if want is None:
        require(got is None, 'a well-formed {} problem is refused with {}'.format(case['what'], got and got.__name__),
                case=case)
        obs.count('accepted')
        return
    require(got is not None, 'a malformed {} problem ({}) is accepted'.format(case['what'], defect), case=case)
    require(issubclass(got, want), 'a malformed {} problem ({}) is refused with {} instead of {}'.format(
        case['what'], defect, got.__name__, want.__name__), case=case)
    obs.count('refused')
    obs.nontrivial()


register(Check(
    'A02', 'well-formed and malformed sudoku schemas (rows too many, too few, too long, too short, compensating lengths, bad cells) '
           'and knapsack problems (floats, strings, None among values, capacities and weights; too many or few rows; row '
           'lengths), lists, tuples and iterators; non-trivial: a malformed input refused',
    gen_a02, run_a02, quick=12500, thorough=60000,
    need={'accepted': 400, 'refused': 900, 'sudoku_swap': 40, 'knapsack_many': 80, 'knapsack_rowshort': 40}))


# ------------------------------------------------------------------ A03, A04: nonograms
def runs(line):
    return [len(list(g)) for k, g in itertools.groupby(bool(x) for x in line) if k]


def line_patterns(clue, n):
    """All 0/1 tuples of length n whose runs are the clue."""
    if not clue:
        return [(0,) * n]
    out = []
    rest = clue[1:]
    need = sum(rest) + len(rest)
    for start in range(0, n - need - clue[0] + 1):
        head = (0,) * start + (1,) * clue[0]
        if rest:
            for tail in line_patterns(rest, n - len(head) - 1):
                out.append(head + (0,) + tail)
        else:
            out.append(head + (0,) * (n - len(head)))
    return out


def nonogram_solve(rows, cols, cap):
    """All pictures with these clues: row by row, column prefixes pruned."""
    nc = len(cols)
    pats = [line_patterns(list(r), nc) for r in rows]
    colpats = [{p[:k] for p in line_patterns(list(c), len(rows)) for k in range(len(rows) + 1)} for c in cols]
    out = []

    def go(pic):
        if len(out) > cap:
            return
        if len(pic) == len(rows):
            if all(runs([row[c] for row in pic]) == list(cols[c]) for c in range(nc)):
                out.append(tuple(pic))
            return
        for p in pats[len(pic)]:
            new = pic + [p]
            if all(tuple(row[c] for row in new) in colpats[c] for c in range(nc)):
                go(new)
    go([])
    return out


def random_picture(rng, nr, nc):
    r = rng.random()
    if r < 0.1:
        return [[0] * nc for _ in range(nr)]
    if r < 0.17:
        return [[1] * nc for _ in range(nr)]
    if r < 0.35 and nr and nc:
        # sparse permutation-like pictures: many pictures share their clues
        pic = [[0] * nc for _ in range(nr)]
        for rr, cc in zip(rng.sample(range(nr), min(nr, nc)), rng.sample(range(nc), min(nr, nc))):
            pic[rr][cc] = 1
        return pic
    p = rng.choice([0.2, 0.4, 0.5, 0.6, 0.8])
    return [[int(rng.random() < p) for _ in range(nc)] for _ in range(nr)]


def gen_a03(rng, i, tier):
    m = 5 if tier == 'quick' else rng.choice([4, 5, 6])
    nr, nc = rng.randint(1, m), rng.randint(1, m)
    if rng.random() < 0.04:
        nr, nc = rng.choice([(0, 0), (0, 2), (2, 0), (1, 1)])
    long_ = rng.random() < 0.12
    if long_:
        # a long line or two
        nr = rng.choice([1, 1, 2])
        nc = rng.randint(6, 16) if nr == 1 else rng.randint(6, 9)
    pic = random_picture(rng, nr, nc)
    if long_:
        for row in pic:
            while rng.random() < 0.6:
                a = rng.randrange(nc)
                row[a:a + rng.randint(3, 9)] = [1] * len(row[a:a + rng.randint(3, 9)])
            del row[nc:]
            row += [0] * (nc - len(row))
    rows = [runs(r) for r in pic]
    cols = [runs([row[c] for row in pic]) for c in range(nc)]
    how = rng.random()
    if long_ and how < 0.5:
        k = rng.randrange(nr)
        wide = [j for j, x in enumerate(rows[k]) if x > 2]
        if wide and rng.random() < 0.6:
            j = rng.choice(wide)           # one block as two that touch
            a = rng.randint(1, rows[k][j] - 1)
            rows[k] = rows[k][:j] + [a, rows[k][j] - a] + rows[k][j + 1:]
        elif len(rows[k]) > 1:
            j = rng.randrange(len(rows[k]) - 1)
            rows[k] = rng.choice([rows[k][:j] + [rows[k][j] + rows[k][j + 1]] + rows[k][j + 2:],
                                  rows[k][:j] + [rows[k][j + 1], rows[k][j]] + rows[k][j + 2:]])
        how = 1
    if long_:
        if rng.random() < 0.5:
            rows, cols, nr, nc = cols, rows, nc, nr
        return {'rows': rows, 'cols': cols, 'limit': rng.choice(['absent', 'inf', 'absent', 1, 2, None]), 'cfg': None,
                'tuples': rng.random() < 0.2, 'long': True}
    if how < 0.22 and nr and nc:
        # spoil a clue
        lines = rng.choice([rows, cols])
        k = rng.randrange(len(lines))
        lines[k] = rng.choice([[], [1], [nc], [nr], lines[k] + [1], lines[k][:-1], [max(nr, nc) + 1],
                               [1, 1], [2, 1], lines[k][::-1], [x + 1 for x in lines[k]], [1, max(nr, nc)]])
    elif how < 0.3:
        rows = [runs([rng.random() < 0.5 for _ in range(nc)]) for _ in range(nr)]
    elif how < 0.36:
        rows, cols = rows[::-1], cols[::-1]
    elif how < 0.42:
        rng.shuffle(rows)
    return {'rows': rows, 'cols': cols, 'limit': rng.choice(['absent', 'inf', 'absent', 1, 2, None]),
            'cfg': gen_appcfg(rng, ['MIN_BOUND', 'MIN_BOUND', 'ORDERED', 'GROUPS', 'RANDOM', 'MAX_BOUND', 'REVERSED',
                                    'MIN_CONSTRAINT', 'MAX_CONSTRAINT']), 'tuples': rng.random() < 0.2}


def run_a03(case, obs):
    rows, cols = case['rows'], case['cols']
    cap = 130
    want = set(nonogram_solve(rows, cols, cap))
    lim = None if case['limit'] in ('absent', 'inf', None) else case['limit']
    if len(want) > cap:
        raise Skip()
    clues = {'rows': freeze(rows) if case['tuples'] else [list(r) for r in rows],
             'columns': freeze(cols) if case['tuples'] else [list(c) for c in cols]}
    solver = mod('nonogram').NonogramSolver(clues, **options(case))
    got = [freeze(p) for p in take(solver, cap if lim is None else lim, 'the nonogram solver', spoil(case))]
    judge_stream(got, want, lim, 'the nonogram solver', obs, rows=rows, cols=cols, cfg=case['cfg'])
    judge_stats(solver, got, want, lim, 'the nonogram solver')
    require(freeze(clues['rows']) == freeze(rows) and freeze(clues['columns']) == freeze(cols),
            'the caller\'s clues were changed')
    if len(want) > 1 and lim is None:
        obs.nontrivial()
        obs.count('all_of_several')
    if want and not any(rows):
        obs.count('blank_pictures')
    if case.get('long'):
        obs.count('long_lines')
    if sum(map(sum, rows)) != sum(map(sum, cols)):
        obs.count('contradicting_totals')
    obs.see('clues', (rows, cols))


register(Check(
    'A03', 'clues of random pictures up to 5x5 (blank, full, sparse and dense), permuted, reversed, spoiled and oversized clues, every '
           'configuration and limit, against a line-pattern enumerator; non-trivial: all of several pictures enumerated',
    gen_a03, run_a03, quick=9000, thorough=60000,
    need={'streams_judged': 900, 'all_of_several': 120, 'without_solution': 120, 'blank_pictures': 30,
          'contradicting_totals': 60}))


def gen_a04(rng, i, tier):
    nr, nc = rng.choice([(rng.randint(0, 6), rng.randint(0, 6)), (rng.randint(1, 12), rng.randint(1, 12))])
    pic = random_picture(rng, nr, nc)
    ragged = rng.random() < 0.35
    if ragged:
        pic = [row[:rng.randint(0, len(row))] for row in pic]
    values = rng.choice(['int', 'int', 'bool', 'mixed'])
    if values == 'mixed':
        pic = [[rng.choice([2, 7, 'x', '#', True, 1]) if x else rng.choice([0, None, '', False]) for x in row] for row in pic]
    elif values == 'bool':
        pic = [[bool(x) for x in row] for row in pic]
    return {'pic': pic, 'chars': rng.choice([None, ['_', '#'], [' ', 'X'], ['.', 'O'], ['0', '1']]),
            'zeroes': [rng.choice(['set', 'str', 'list', 'frozenset']), rng.choice([['_'], ['1', '*'], ['.', 'X'], [' '], ['#', ' ', '_']])]
            if rng.random() < 0.4 else None,
            'box': rng.choice(['ll', 'tt']), 'image': [
                ''.join(rng.choice(' _#X*1a') for _ in range(rng.randint(0, 8))) for _ in range(rng.randint(1, 6))]}


def run_a04(case, obs):
    pic = case['pic']
    nm, dm = mod('nonogram'), mod('tool.demo_nonogram')
    width = max([len(r) for r in pic], default=0)
    full = [[bool(x) for x in r] + [False] * (width - len(r)) for r in pic]
    arg = [list(r) for r in pic] if case['box'] == 'll' else tuple(tuple(r) for r in pic)
    shape = nm.pixmap_shape(arg)
    require(tuple(shape) == (len(pic), width), 'wrong picture shape', shape=repr(shape), picture=pic)
    clues = nm.pixmap_to_nonogram(arg)
    rows = [runs(r) for r in full]
    cols = [runs([r[c] for r in full]) for c in range(width)]
    require(freeze(clues['rows']) == freeze(rows) and freeze(clues['columns']) == freeze(cols),
            'wrong clues of a picture', picture=pic, clues=clues, want={'rows': rows, 'columns': cols})
    require(freeze(arg) == freeze(pic), 'the caller\'s picture was changed')
    obs.count('pictures')
    if len({len(r) for r in pic}) > 1:
        obs.count('ragged')
    if pic:
        if case['chars'] is None:
            image = dm.pixmap_to_image(arg)
            back = dm.image_to_pixmap(image)
        else:
            zero, one = case['chars']
            image = dm.pixmap_to_image(arg, zero=zero, one=one)
            back = dm.image_to_pixmap(image, zeroes={zero})
        require([[bool(x) for x in r] for r in back] == full, 'a picture changes when rendered and read back',
                picture=pic, image=image, back=back)
        lines = image.split('\n')
        require(len(lines) == len(pic) and all(len(l) == width for l in lines), 'the image has another shape than the picture',
                image=image, picture=pic)
        zero, one = case['chars'] or [' ', '#']
        require(image == '\n'.join(''.join(one if x else zero for x in r) for r in full), 'the image is made of other characters',
                image=image, picture=pic, chars=[zero, one])
        obs.count('round_trips')
    lines = case['image']
    text = '\n'.join(lines)
    w = max(len(l) for l in lines)
    want = [[int(ch not in ' _') for ch in l] + [0] * (w - len(l)) for l in lines]
    got = dm.image_to_pixmap(text)
    require([[int(bool(x)) for x in r] for r in got] == want, 'an image is read wrongly', image=text, got=got)
    ic = dm.image_to_nonogram(text)
    require(freeze(ic['rows']) == freeze([runs(r) for r in want]) and
            freeze(ic['columns']) == freeze([runs([r[c] for r in want]) for c in range(w)]), 'wrong clues of an image',
            image=text, clues=ic)
    zs = case.get('zeroes')
    if zs is not None:
        zeroes = {'set': set, 'str': ''.join, 'list': list, 'frozenset': frozenset}[zs[0]](zs[1])
        want = [[int(ch not in zs[1]) for ch in l] + [0] * (w - len(l)) for l in lines]
        got = dm.image_to_pixmap(text, zeroes=zeroes)
        require([[int(bool(x)) for x in r] for r in got] == want, 'an image is read wrongly (blanks given)', image=text, got=got,
                blanks=zs)
        ic = dm.image_to_nonogram(text, zeroes=zeroes)
        require(freeze(ic['rows']) == freeze([runs(r) for r in want]) and
                freeze(ic['columns']) == freeze([runs([r[c] for r in want]) for c in range(w)]), 'wrong clues of an image (blanks given)',
                image=text, clues=ic, blanks=zs)
        obs.count('blanks_given')
    obs.count('images')
    if any(rows):
        obs.nontrivial()
    if len(pic) <= 5 and width <= 5:
        found = nonogram_solve(rows, cols, 60)
        if len(found) <= 60:
            pics = [freeze(p) for p in take(nm.NonogramSolver(clues), 60, 'the nonogram solver')]
            me = tuple(tuple(int(x) for x in r) for r in full)
            require(me in pics, 'the solver does not find the picture its clues came from', picture=pic, found=pics[:3])
            obs.count('pictures_found_again')


register(Check(
    'A04', 'random pictures up to 12x12 (ragged, blank, full, truthy cells of other types) and random text images through the '
           'conversions, and the solver run on the clues of the small ones, against runs computed independently; '
           'non-trivial: a picture with filled cells',
    gen_a04, run_a04, quick=15000, thorough=100000,
    need={'pictures': 2500, 'ragged': 400, 'round_trips': 2000, 'pictures_found_again': 400}))


# ------------------------------------------------------------------ A05: cryptarithms
WORD = re.compile('[A-Za-z0-9]+')


def crypt_checker(source, avoid):
    src = source.upper()
    words = WORD.findall(src)
    letters = sorted({ch for w in words for ch in w if ch.isalpha()})
    lead = {w[0] for w in words if w[0].isalpha()} if avoid else set()

    def term(w):
        parts = []
        for k, ch in enumerate(reversed(w)):
            p = 10 ** k
            if ch.isdigit():
                if ch != '0':
                    parts.append(str(int(ch) * p))
            else:
                parts.append('{}*{}'.format(ch, p))
        return '(' + ('+'.join(parts) or '0') + ')'
    code = WORD.sub(lambda m: term(m.group()), src)
    f = eval('lambda {}: {}'.format(','.join(letters), code), {'__builtins__': {}})
    nolead = [k for k, l in enumerate(letters) if l in lead]

    def ok(p):
        return not any(p[k] == 0 for k in nolead) and bool(f(*p))
    return letters, ok


def crypt_solve(source, avoid):
    letters, ok = crypt_checker(source, avoid)
    return letters, {p for p in itertools.permutations(range(10), len(letters)) if ok(p)}


def run_many_letters(case, obs):
    letters, ok = crypt_checker(case['source'], case['avoid'] is not False)
    kw = options(case)
    if case['avoid'] is not None:
        kw['avoid_leading_zeros'] = case['avoid']
    solver = mod('cryptarithm').CryptarithmSolver(case['source'], **kw)
    got = []
    for sol in take(solver, case['limit'], 'the cryptarithm solver', spoil(case)):
        require(set(sol) == set(letters), 'a cryptarithm solution does not assign exactly the letters', source=case['source'], solution=sol)
        p = tuple(sol[l] for l in letters)
        require(set(p) <= set(range(10)) and len(set(p)) == len(p), 'letters share a digit, or have none', source=case['source'], solution=sol)
        require(ok(p), 'the solution does not make the statement true', source=case['source'], solution=sol)
        got.append(p)
    require(len(set(got)) == len(got), 'a solution comes twice', source=case['source'])
    require(len(got) == case['limit'], 'fewer solutions than the limit, of very many', source=case['source'], got=len(got),
            limit=case['limit'])
    obs.count('many_letters')
    obs.peak('letters', len(letters))
    if case['avoid'] is not False and len({w[0] for w in WORD.findall(case['source']) if w[0].isalpha()}) == 9:
        obs.count('nine_leading_letters')
    obs.nontrivial()


def gen_many_letters(rng):
    """A puzzle of 6-10 letters that most assignments make true."""
    while True:
        pool = rng.sample('ABCDEFGHIJKLMNOPQRSTUVWXYZ', rng.choice([6, 7, 8, 9, 9, 9, 10, 10]))
        words, left = [], list(pool)
        size = rng.choice([1, 1, 2, 3, 4])
        while left:
            n = rng.randint(1, size)
            words.append(''.join(left[:n]))
            left = left[n:]
        words += [''.join(rng.choice(pool) for _ in range(rng.randint(1, 3))) for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(words)
        k = rng.randint(1, len(words))
        a, b = words[:k], words[k:] or [str(rng.choice([0, 45, 10 ** 6, 7]))]
        src = rng.choice(['+', '+', '+', '-', '*']).join(a) + rng.choice(['<', '<=', '>', '>=', '!=', '==']) + '+'.join(b)
        avoid = rng.choice([True, True, None, False])
        if avoid is not False and len({w[0] for w in words}) > 9:
            continue
        letters, ok = crypt_checker(src, avoid is not False)
        leading = sorted({w[0] for w in words}) if avoid is not False else []
        true = 0
        for _ in range(40):
            asg = dict(zip(leading, rng.sample(range(1, 10), len(leading))))
            rest = [x for x in letters if x not in asg]
            asg.update(zip(rest, rng.sample([d for d in range(10) if d not in asg.values()], len(rest))))
            true += ok([asg[x] for x in letters])
        if true < 24:
            continue
        return {'source': src, 'avoid': avoid, 'cfg': gen_appcfg(rng), 'limit': rng.choice([1, 3, 20, 40]), 'many': True}


def gen_a05(rng, i, tier):
    if rng.random() < 0.03:
        return gen_many_letters(rng)
    nl = rng.choice([0, 1, 2, 2, 3, 3, 3, 4, 4, 5] if tier == 'quick' else [0, 1, 2, 3, 4, 4, 5, 5, 6])
    pool = rng.sample('ABCDEFGHIJKLMNOPQRSTUVWXYZ', nl)
    asg = dict(zip(pool, rng.sample(range(10), nl)))
    inv = {d: l for l, d in asg.items()}

    def word(maxlen=4):
        n = rng.randint(1, maxlen)
        w = ''.join(rng.choice(pool) if pool and rng.random() < 0.75 else str(rng.randint(0, 9)) for _ in range(n))
        return w

    def val(w):
        return int(''.join(str(asg.get(ch, ch)) for ch in w))

    def spell(n):
        return ''.join(inv[int(d)] if int(d) in inv and rng.random() < 0.85 else d for d in str(n))

    def side(k):
        ops = '+-*' if k <= 2 else '++-*'
        s, e = '', ''
        for j in range(k):
            w = word(rng.choice([7, 9, 10, 12, 16, 24, 32, 48]) if long_ else rng.choice([1, 2, 3, 4]) if k < 3 else 2)
            if j:
                op = rng.choice(ops)
                s, e = s + op, e + op
            s, e = s + w, e + str(val(w))
        if k > 1 and rng.random() < 0.15:
            w = word(2)
            s, e = '({})*{}'.format(s, w), '({})*{}'.format(e, val(w))
        elif rng.random() < 0.06:
            s, e = '-' + s, '-' + e
        return s, eval(e)
    long_ = nl < 4 and rng.random() < 0.1
    ls, lv = side(rng.choice([1, 2, 2, 2, 3]))
    cmp_ = rng.choice(['==', '==', '==', '==', '!=', '<', '<=', '>', '>='])
    if rng.random() < 0.75:
        v = lv if cmp_ == '==' or rng.random() < 0.5 else lv + rng.randint(-3, 3)
        if v < 0:
            rs = '-' + spell(-v)
        else:
            rs = spell(v)
            if rng.random() < 0.15:
                rs = '0' + rs
    else:
        rs = side(rng.choice([1, 1, 2]))[0]
    src = ls + cmp_ + rs
    if rng.random() < 0.25:
        src = rs + cmp_ + ls
    r = rng.random()
    if r < 0.15:
        src = src.lower()
    elif r < 0.25:
        src = ''.join(ch.lower() if rng.random() < 0.5 else ch for ch in src)
    if rng.random() < 0.15:
        src = re.sub(r'(==|!=|<=|>=|[-+*<>])', r' \1 ', src).strip()
    return {'source': src, 'avoid': rng.choice([True, True, None, False, False]),
            'cfg': gen_appcfg(rng), 'limit': rng.choice(['absent', 'absent', 'inf', 1, 3, None])}


def run_a05(case, obs):
    src = case['source']
    if case.get('many'):
        return run_many_letters(case, obs)
    if len({ch for ch in src.upper() if ch.isalpha()}) > 6:
        raise Skip()
    letters, want = crypt_solve(src, case['avoid'] is not False)
    if len(want) > 6000:
        raise Skip()
    kw = options(case)
    if case['avoid'] is not None:
        kw['avoid_leading_zeros'] = case['avoid']
    lim = None if case['limit'] in ('absent', 'inf', None) else case['limit']
    solver = mod('cryptarithm').CryptarithmSolver(src, **kw)
    got = []
    if re.search('[A-Z0-9]{8}', src.upper()) and letters:
        obs.count('long_words')
    for sol in take(solver, len(want) if lim is None else lim, 'the cryptarithm solver', spoil(case)):
        require(set(sol) == set(letters), 'a cryptarithm solution does not assign exactly the letters', source=src,
                solution=sol)
        got.append(tuple(sol[l] for l in letters))
    judge_stream(got, want, lim, 'the cryptarithm solver', obs, source=src, letters=letters, avoid=case['avoid'])
    judge_stats(solver, got, want, lim, 'the cryptarithm solver')
    require(solver.source == src.upper(), 'the puzzle reads back as another', source=src, got=solver.source)
    if hasattr(solver.expr, 'evaluate') and letters and 'pow' not in src:
        probe, good = random.Random(src), set(want)
        for _ in range(4):
            digits = tuple(probe.sample(range(10), len(letters)))
            if case['avoid'] is False or not crypt_leading([digits], letters, WORD.findall(src.upper())):
                require(bool(solver.expr.evaluate(dict(zip(letters, digits)))) == (digits in good),
                        'the relation of a cryptarithm is another', source=src, digits=digits)
                obs.count('relations_evaluated')
    if letters and want:
        obs.nontrivial()
    words = WORD.findall(src.upper())
    if case['avoid'] is False and len(letters) and len(crypt_leading(want, letters, words)):
        obs.count('leading_zeros_included')
    if any(re.search('[0-9][A-Z]|[A-Z][0-9]', w) for w in words):
        obs.count('mixed_words')
    if not letters:
        obs.count('no_letters')
    if src != src.upper():
        obs.count('lower_case')
    if any(w[0] == '0' and len(w) > 1 for w in words):
        obs.count('leading_literal_zero')


def crypt_leading(want, letters, words):
    idx = [letters.index(w[0]) for w in words if w[0].isalpha()]
    return [w for w in want if any(w[k] == 0 for k in idx)]


register(Check(
    'A05', 'generated puzzles of up to 6 letters (10 where most assignments are solutions; planted and unplanted, digits inside words, repeated letters, parentheses, signs, '
           'lower case, spaces, all comparisons, both leading-zero settings), against permutation enumeration; non-trivial: '
           'letters and at least one solution',
    gen_a05, run_a05, quick=9600, thorough=30000,
    need={'streams_judged': 800, 'leading_zeros_included': 60, 'mixed_words': 250, 'no_letters': 40, 'lower_case': 80,
          'without_solution': 60, 'several_solutions': 300}))


# ------------------------------------------------------------------ A06: graph labeling
NODE_KINDS = {
    'int': lambda k: k, 'str': lambda k: 'node{}'.format(k), 'tuple': lambda k: (k // 3, k % 3),
    'fset': lambda k: frozenset([k, 'n']), 'mixed': lambda k: [k, 'n{}'.format(k), ('t', k), frozenset([k])][k % 4],
    'neg': lambda k: -k * 7, 'odd': lambda k: ['', ' ', 'a b', '1x', 'n_1', 'n_0', "q'", 'é'][k % 8],
    # names that run into each other: 1-12 and 11-2 read the same, '1' and 1 look the same, -1 and -2 hash the same
    'glued': lambda k: [1, 12, 11, 2, 112, 21, 121, 22][k % 8], 'glueds': lambda k: ['a', 'ab', 'aa', 'b', 'aab', 'ba', 'aba', 'bb'][k % 8],
    'alike': lambda k: [1, '1', -1, -2, '-1', (1,), '(1,)', '01'][k % 8]}


def gen_a06(rng, i, tier):
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7])
    order = list(range(n))
    rng.shuffle(order)
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    p = rng.choice([0.0, 0.15, 0.3, 0.5, 1.0])
    edges = [list(e) for e in pairs if rng.random() < p]
    if rng.random() < 0.12 and n:
        k = rng.randrange(n)
        edges.append([k, k])
    if rng.random() < 0.3:
        edges += [rng.choice(edges) for _ in range(3)] if edges else []
    if n >= 4 and rng.random() < 0.15:      # a perfect matching of the nodes as they are named, in both orders
        edges = [[0, 1], [2, 3]] if rng.random() < 0.5 else [[0, 3], [1, 2]]
    m = rng.choice([0, 1, 2, 2, 3, 3, 3, 4])
    pool = rng.choice([['red', 'blue', 'green', 'yellow', 'white'], [10, 20, 30, 40, 50], ['a', 'b', 'c', 'd', 'e'],
                       [0, 'x', -1, '', 2], [3, 1, 2, 0, 4], [1, '1', '01', ' 1', 1.5], [None, 'None', 'none', 0, '0'],
                       ['a', 'A', 'aa', 'a ', ''], ['1.5', 1.5, '2', 2, -1], [-1, -2, '-1', '-2', -3]])
    labels = pool[:m]
    if len({str(x) for x in labels}) < len(labels) and rng.random() < 0.3:
        labels += rng.choice([[1.0], [True], ['1']])      # 1, 1.0 and True are the same label, '1' is another
    if rng.random() < 0.3 and labels:
        labels = labels + [rng.choice(labels) for _ in range(rng.randint(1, 2))]
        rng.shuffle(labels)
    return {'n': n, 'order': order, 'edges': edges, 'labels': labels, 'nodes': rng.choice(sorted(NODE_KINDS)),
            'graph': rng.choice(['Graph', 'Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph']),
            'box': rng.choice(['list', 'tuple', 'set', 'gen', 'keys', 'list']), 'cfg': gen_appcfg(rng),
            'limit': rng.choice(['absent', 'absent', 'inf', 1, 4, None])}


def run_a06(case, obs):
    import networkx
    if len(set(case['labels'])) ** case['n'] > 2500:
        raise Skip()
    make = NODE_KINDS[case['nodes']]
    g = getattr(networkx, case['graph'])()
    nodes = [make(k) for k in case['order']]
    g.add_nodes_from(nodes)
    for a, b in case['edges']:
        g.add_edge(make(a), make(b))
    before = (list(g.nodes()), list(g.edges()))
    uniq = list(dict.fromkeys(case['labels']))
    want = set()
    order = sorted(range(case['n']))
    for t in itertools.product(uniq, repeat=case['n']):
        if all(t[a] != t[b] for a, b in case['edges']):
            want.add(t)
    labels = case['labels']
    labels = {'list': list, 'tuple': tuple, 'set': set, 'gen': iter, 'keys': lambda x: dict.fromkeys(x).keys()}[case['box']](labels)
    lim = None if case['limit'] in ('absent', 'inf', None) else case['limit']
    solver = mod('graph_labeling').GraphLabelingSolver(g, labels, **options(case))
    got = []
    for sol in take(solver, len(want) if lim is None else lim, 'the graph labeling solver', spoil(case)):
        require(isinstance(sol, dict) and set(sol) == set(nodes), 'a labeling does not label exactly the nodes',
                labeling=repr(sol), nodes=repr(nodes))
        got.append(tuple(sol[make(k)] for k in order))
    judge_stream(got, want, lim, 'the graph labeling solver', obs, edges=case['edges'], labels=case['labels'], n=case['n'],
                 graph=case['graph'])
    judge_stats(solver, got, want, lim, 'the graph labeling solver')
    require((list(g.nodes()), list(g.edges())) == before, 'the caller\'s graph was changed')
    if case['edges'] and len(want) > 1:
        obs.nontrivial()
    if any(a == b for a, b in case['edges']):
        obs.count('self_loops')
    if len(uniq) < len(case['labels']):
        obs.count('repeated_labels')
    if len({str(x) for x in uniq}) < len(uniq):
        obs.count('labels_that_look_alike')
    if set(range(case['n'])) - {x for e in case['edges'] for x in e}:
        obs.count('isolated_nodes')
    obs.count('graph_' + case['graph'])


register(Check(
    'A06', 'random graphs of up to 6 nodes (four networkx classes, self-loops, parallel and opposite edges, isolated nodes, empty graph, '
           'nodes of many types) with 0-4 distinct labels given as list, tuple, set, iterator or with repetitions, against '
           'enumeration of all maps; non-trivial: edges and several labelings',
    gen_a06, run_a06, quick=12500, thorough=80000,
    need={'streams_judged': 1800, 'self_loops': 100, 'repeated_labels': 250, 'isolated_nodes': 400, 'without_solution': 200,
          'several_solutions': 600}))


# ------------------------------------------------------------------ A07: knapsack
def gen_a07(rng, i, tier):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8] if tier == 'quick' else [2, 4, 6, 7, 8, 9, 10])
    d = rng.choice([0, 1, 1, 1, 2, 2, 3])
    lo = rng.choice([0, 0, 0, -5])
    hi = rng.choice([3, 10, 30])
    values = [rng.randint(lo, hi) for _ in range(n)]
    weights = [[rng.randint(rng.choice([lo, 0]), hi) for _ in range(d)] for _ in range(n)]
    caps = []
    for k in range(d):
        tot = sum(w[k] for w in weights)
        r = rng.random()
        if r < 0.6 and tot > 0:
            caps.append(rng.randint(0, tot))
        elif r < 0.75:
            caps.append(rng.choice([0, tot, tot - 1, tot + 5]))
        else:
            caps.append(rng.choice([-1, -3, 0, 1, hi, sum(w[k] for w in weights[:n // 2])]))
    return {'values': values, 'caps': caps, 'weights': weights, 'box': rng.choice(['list', 'tuple', 'gen']),
            'cfg': gen_appcfg(rng), 'calls': rng.choice([1, 1, 2, 3]),
            'limit': rng.choice(['absent', 'absent', 'absent', 'inf', None, 1, 2, 3, 0]),
            'timeout': rng.choice([None, None, None, None, 'inf', 3, 10, 40, 200])}


def run_a07(case, obs):
    values, caps, weights = case['values'], case['caps'], case['weights']
    n = len(values)
    best = None
    for sel in itertools.product((0, 1), repeat=n):
        if all(sum(s * w[k] for s, w in zip(sel, weights)) <= cap for k, cap in enumerate(caps)):
            v = sum(s * x for s, x in zip(sel, values))
            if best is None or v > best:
                best = v
    kw = options(case)
    if case['timeout'] is not None:
        kw['timeout'] = infinity() if case['timeout'] == 'inf' else float(case['timeout'])
    CLOCK.tick = 1.0 if case['timeout'] not in (None, 'inf') else 0.0
    try:
        opt = mod('knapsack').KnapsackOptimizer(*boxed(case['box'], values, caps, weights), **kw)
        for call in range(case['calls']):
            res = opt()
            st = opt.get_stats()
            obs.count('optimizations')
            if res.solution is not None:
                sel = tuple(res.solution)
                require(len(sel) == n and all(x in (0, 1) for x in sel), 'a selection is not one 0/1 choice per item', got=sel)
                w = tuple(sum(s * x[k] for s, x in zip(sel, weights)) for k in range(len(caps)))
                v = sum(s * x for s, x in zip(sel, values))
                require(all(x <= c for x, c in zip(w, caps)), 'the selection exceeds a capacity', selection=sel, weights=w,
                        capacities=caps, call=call)
                require(res.value == v and tuple(res.weights) == w, 'the value or weights reported are not those of the selection',
                        reported=[res.value, list(res.weights)], real=[v, list(w)], call=call)
            else:
                require(res.value is None and res.weights is None, 'a value or weights without a selection')
                require(not res.is_optimal, 'no selection is flagged optimal')
            if st.interrupt is None:
                if best is None:
                    require(res.solution is None, 'a selection although none is feasible', selection=res.solution)
                    obs.count('infeasible')
                else:
                    require(res.solution is not None, 'an uninterrupted run finds nothing', best=best, call=call)
                    require(v == best, 'the selection is not the best', value=v, best=best, selection=sel, call=call)
                    require(bool(res.is_optimal), 'a proven optimum is not flagged optimal', call=call)
                    obs.count('optima_checked')
                    if n >= 3 and 0 < sum(sel) < n:
                        obs.nontrivial()
            else:
                require(not res.is_optimal, 'an interrupted run is flagged optimal', stats=repr(st), call=call)
                obs.count('interrupted_' + st.interrupt)
            if isinstance(case['limit'], int):
                require(st.count <= case['limit'], 'more iterations than the limit')
            elif case['timeout'] in (None, 'inf'):
                require(st.interrupt is None, 'interrupted without limit or timeout', stats=repr(st))
    finally:
        CLOCK.tick = 0.0


register(Check(
    'A07', 'random problems of up to 8 items (10 thorough) in 0-3 dimensions with negative and zero values, weights and capacities, lists, tuples and '
           'iterators, repeated calls, limits and timeouts on a ticking virtual clock, against all 2^n selections; non-trivial: '
           'a proper subset of at least 3 items is optimal',
    gen_a07, run_a07, quick=15000, thorough=60000, virtual_clock=True,
    need={'optima_checked': 1500, 'infeasible': 60, 'interrupted_limit': 300, 'interrupted_timeout': 200}))


# ------------------------------------------------------------------ A08: queens
def queens_solve(n):
    out = set()
    for p in itertools.permutations(range(n)):
        if len({p[k] + k for k in range(n)}) == n and len({p[k] - k for k in range(n)}) == n:
            out.add(tuple(tuple(int(p[r] == c) for c in range(n)) for r in range(n)))
    return out


GOOD, BAD = ['ORDERED', 'GROUPS', 'MIN_BOUND', 'MAX_CONSTRAINT'], ['REVERSED', 'MAX_BOUND', 'MIN_CONSTRAINT', 'RANDOM']
_queens = {}


def fixed_a08(tier):
    out = [{'n': n, 'cfg': None, 'limit': 'absent'} for n in range(0, 8)]
    for comp in (True, False):
        out += [{'n': n, 'cfg': [p, comp], 'limit': 'absent'} for n in range(0, 7) for p in GOOD]
        out += [{'n': n, 'cfg': [p, comp], 'limit': 'absent'} for n in range(0, 3) for p in BAD]
        # these orders place the helper variables first: a complete search of a larger board would take for ever
        out += [{'n': n, 'cfg': [p, comp], 'limit': 'absent', 'timeout': 1} for n in (3, 4) for p in BAD]
    out += [{'n': 8, 'cfg': None, 'limit': 3}, {'n': 8, 'cfg': None, 'limit': 'absent'}]
    if tier != 'quick':
        out += [{'n': 7, 'cfg': ['ORDERED', True], 'limit': 'absent'},
                {'n': 7, 'cfg': ['MAX_CONSTRAINT', False], 'limit': 'absent'}]
    return out


def gen_a08(rng, i, tier):
    n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6])
    case = {'n': n, 'cfg': gen_appcfg(rng, GOOD), 'limit': rng.choice(['absent', 'inf', 1, 2, 5, None, 0])}
    if n > 4 and rng.random() < 0.05:
        case.update(cfg=['RANDOM', True], timeout=0.5)
    return case


def run_a08(case, obs):
    n = case['n']
    if n not in _queens:
        _queens[n] = queens_solve(n)
    want = _queens[n]
    lim = None if case['limit'] in ('absent', 'inf', None) else case['limit']
    kw = options(case)
    if case.get('timeout'):
        kw['timeout'] = case['timeout']
    solver = mod('tool.queens').QueensSolver(n, **kw)
    got = [freeze(b) for b in take(solver, len(want) if lim is None else lim, 'the queens solver', spoil(case))]
    if case.get('timeout') and solver.get_stats().interrupt == 'timeout':
        require(set(got) <= want and len(set(got)) == len(got), 'the queens solver yields something that is not a solution, '
                'or twice', got=got[:3])
        obs.count('stopped_by_timeout')
        return
    judge_stream(got, want, lim, 'the queens solver', obs, n=n, cfg=case['cfg'])
    judge_stats(solver, got, want, lim, 'the queens solver')
    obs.count('size_{}'.format(n))
    if n >= 4:
        obs.nontrivial()


register(Check(
    'A08', 'board sizes 0 to 8 under every selection policy, compiled or not (those that would take for ever '
           'up to size 2, and up to a timeout beyond), and random ones with limits, against enumeration of all permutations; '
           'non-trivial: size 4 or more',
    gen_a08, run_a08, quick=400, thorough=3000, fixed=fixed_a08, case_wall=60,
    heavy=lambda case: case['n'] > 6 or (case['n'] > 2 and (case['cfg'] or ['GROUPS'])[0] in BAD),
    need={'streams_judged': 200, 'size_0': 10, 'size_5': 10, 'size_6': 5}))


# ------------------------------------------------------------------ A09: Einstein's riddle
RIDDLE = {'owner': ['English', 'Swede', 'Dane', 'Norwegian', 'German'], 'color': ['red', 'green', 'white', 'yellow', 'blue'],
          'drink': ['water', 'coffee', 'tea', 'milk', 'beer'], 'smoke': ['Pall Mall', 'Prince', 'Dunhill', 'Blend', 'Blue Master'],
          'animal': ['cats', 'a dog', 'birds', 'a horse', 'a zebra']}


def riddle_false(at):
    """The numbers of the published statements that are false of an arrangement (at: thing -> house)."""
    near = lambda a, b: abs(a - b) == 1
    facts = [at['English'] == at['red'], at['Swede'] == at['a dog'], at['Dane'] == at['tea'], at['green'] + 1 == at['white'],
             at['coffee'] == at['green'], at['Pall Mall'] == at['birds'], at['yellow'] == at['Dunhill'], at['milk'] == 3,
             at['Norwegian'] == 1, near(at['Blend'], at['cats']), near(at['a horse'], at['Dunhill']),
             at['Blue Master'] == at['beer'], at['German'] == at['Prince'], near(at['Norwegian'], at['blue']),
             near(at['water'], at['Blend'])]
    return [k + 1 for k, ok in enumerate(facts) if not ok]


def riddle_solutions():
    """All arrangements, category by category."""
    if 'r' not in _queens:
        out = []
        perms = list(itertools.permutations(range(1, 6)))
        for c in perms:
            col = dict(zip(RIDDLE['color'], c))
            if col['green'] + 1 != col['white']:
                continue
            for o in perms:
                own = dict(zip(RIDDLE['owner'], o))
                if own['Norwegian'] != 1 or own['English'] != col['red'] or abs(col['blue'] - 1) != 1:
                    continue
                for d in perms:
                    dr = dict(zip(RIDDLE['drink'], d))
                    if dr['milk'] != 3 or dr['coffee'] != col['green'] or own['Dane'] != dr['tea']:
                        continue
                    for s in perms:
                        sm = dict(zip(RIDDLE['smoke'], s))
                        if sm['Dunhill'] != col['yellow'] or sm['Blue Master'] != dr['beer'] or sm['Prince'] != own['German']:
                            continue
                        for a in perms:
                            at = dict(zip(RIDDLE['animal'], a), **col, **own, **dr, **sm)
                            if not riddle_false(at):
                                out.append(tuple(sorted(at.items())))
        _queens['r'] = out
    return _queens['r']


def fixed_a09(tier):
    out = [{'cfg': None, 'limit': 'absent', 'twice': True}, {'cfg': None, 'limit': 1, 'twice': False},
           {'cfg': None, 'limit': 0, 'twice': False}]
    for p in ('MIN_CONSTRAINT', 'ORDERED', 'REVERSED', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MAX_CONSTRAINT'):
        out.append({'cfg': [p, True], 'limit': 'absent', 'twice': False})
    for p in ('MIN_BOUND', 'ORDERED', 'REVERSED', 'GROUPS', 'MAX_BOUND', 'MAX_CONSTRAINT'):
        out.append({'cfg': [p, False], 'limit': 'inf', 'twice': False})
    return out


def gen_a09(rng, i, tier):
    return {'cfg': ['RANDOM', True], 'limit': 'absent', 'twice': False, 'timeout': 6}


def run_a09(case, obs):
    sols = riddle_solutions()
    if len(sols) != 1:
        raise Violation('the riddle has {} arrangements'.format(len(sols)))     # cannot happen: nothing of satisfy in it
    kw = options(case)
    if case.get('timeout'):
        kw['timeout'] = case['timeout']
    solver = mod('tool.einstein_riddle').EinsteinRiddleSolver(**kw)
    lim = None if case['limit'] in ('absent', 'inf', None) else case['limit']
    for _ in range(2 if case['twice'] else 1):
        got = []
        for sol in take(solver, 1 if lim is None else lim, 'the riddle solver', spoil(case)):
            require(sorted(sol) == [1, 2, 3, 4, 5], 'an arrangement does not have the houses 1 to 5', got=repr(sol))
            at = {}
            for house, things in sol.items():
                require(set(things) == set(RIDDLE), 'a house does not have one thing of every kind', house=house, things=things)
                for kind, thing in things.items():
                    require(thing in RIDDLE[kind], 'an unknown thing', thing=thing)
                    at[thing] = house
            require(len(at) == 25, 'two houses share a thing', arrangement=repr(sol))
            require(not riddle_false(at), 'statements {} are false of the arrangement'.format(riddle_false(at)),
                    arrangement=repr(sol))
            got.append(tuple(sorted(at.items())))
        if solver.get_stats().interrupt == 'timeout' and case.get('timeout'):
            obs.count('stopped_by_timeout')
            require(got in ([], sols), 'a wrong arrangement')
            continue
        judge_stream(got, set(sols), lim, 'the riddle solver', obs, cfg=case['cfg'])
        judge_stats(solver, got, sols, lim, 'the riddle solver')
        obs.nontrivial()


register(Check(
    'A09', "the riddle under every selection policy, compiled or not, random variable orders, limits and repeated runs, each statement of the "
           "riddle evaluated on the arrangement, which an independent enumeration shows to be the only one; non-trivial: a "
           "complete search",
    gen_a09, run_a09, quick=8, thorough=120, fixed=fixed_a09, case_wall=100,
    heavy=lambda case: (case['cfg'] or [''])[0] in ('RANDOM', 'MIN_CONSTRAINT'), need={'streams_judged': 14}))


# ------------------------------------------------------------------ A10: ascii maps
ANSI = re.compile('^\x1b\\[(\\d+)m(.*)\x1b\\[0m$', re.S)
NEIGHBOURS = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]


def regions_of(rows):
    cell = {(r, c): ch for r, row in enumerate(rows) for c, ch in enumerate(row) if ch not in ' .'}
    region, out = {}, []
    for pos in sorted(cell):
        if pos in region:
            continue
        stack, group = [pos], set()
        region[pos] = len(out)
        while stack:
            p = stack.pop()
            group.add(p)
            for dr, dc in NEIGHBOURS:
                q = (p[0] + dr, p[1] + dc)
                if cell.get(q) == cell[pos] and q not in region:
                    region[q] = len(out)
                    stack.append(q)
        out.append(group)
    touching = set()
    for (r, c), k in region.items():
        for dr, dc in NEIGHBOURS:
            k2 = region.get((r + dr, c + dc))
            if k2 is not None and k2 != k:
                touching.add((min(k, k2), max(k, k2)))
    return region, out, touching


def winding(rng, h, w):
    """A map of thin winding regions: each path touches itself only from step to step."""
    grid = [['.'] * w for _ in range(h)]
    near = lambda r, c: [(r + a, c + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b) and 0 <= r + a < h and 0 <= c + b < w]
    for _ in range(rng.choice([1, 1, 2, 3])):
        ch = rng.choice('aab')
        free = [(r, c) for r in range(h) for c in range(w) if grid[r][c] == '.' and all(grid[x][y] != ch for x, y in near(r, c))]
        if not free:
            break
        r, c = rng.choice(free)
        grid[r][c] = ch
        for _ in range(rng.randint(2, 24)):
            steps = [(x, y) for x, y in near(r, c) if grid[x][y] == '.' and
                     all(grid[p][q] != ch for p, q in near(x, y) if (p, q) != (r, c))]
            if not steps:
                break
            r, c = rng.choice(steps)
            grid[r][c] = ch
    return [''.join(row) for row in grid]


def gen_a10(rng, i, tier):
    h, w = rng.randint(1, 6), rng.randint(0, 7)
    tall = rng.random() < 0.08
    if tall:
        h, w = rng.choice([(rng.randint(8, 16), rng.randint(1, 4)), (rng.randint(1, 3), rng.randint(8, 30))])
    alphabet = rng.choice(['ab', 'abc', 'a', '01 ', 'ab.', 'abcd ', 'x . ', 'abc .', '#', '  .', 'aA', 'aAb ', 'aA.',
                           rng.choice(['a\tb', '\t.a', 'a\u00a0 ', '\u00e9e.', '\u3042a\u3044', '*-+|', '_a ', '\\/ ', '\r a', 'a\x0bb.', '\u2028a ',
                                       'e\u0301', '%s{', '09', ',;:'])])
    rows = []
    for r in range(h):
        row = ''
        for c in range(w):
            prev = row[-1] if row and rng.random() < 0.4 else rows[-1][c] if rows and c < len(rows[-1]) and rng.random() < 0.5 \
                else rng.choice(alphabet)
            row += prev
        rows.append(row[:rng.randint(0, w)] if rng.random() < 0.25 else row)
    if tall and rng.random() < 0.5:
        k = rng.choice([-1, -1, rng.randrange(len(rows))])
        rows[k] += rng.choice(alphabet) * rng.randint(1, 4) + rng.choice(['', '', ' b', '..a'])
    if rng.random() < 0.04:
        rows = [''.join(chr(97 + (r * 7 + c) % 26) for c in range(w)) for r in range(h)]
    if rng.random() < 0.12:
        rows = winding(rng, rng.randint(4, 8), rng.randint(4, 10))
    colors = ['red', 'green', 'blue', 'yellow', 'magenta', 'cyan']
    rng.shuffle(colors)
    colors = colors[:rng.choice([1, 2, 3, 3, 4, 4])]
    if rng.random() < 0.15:
        colors = colors + [rng.choice(colors)]
    cfg = gen_appcfg(rng)
    if len(regions_of(rows)[1]) > 9:
        cfg = None
    return {'rows': rows, 'colors': rng.choice([colors, colors, colors, None]), 'cfg': cfg,
            'limit': rng.choice(['absent', 'absent', 'inf', 'inf', 'inf', None, 1, 5]), 'box': rng.choice(['str', 'list', 'tuple', 'str'])}


def fixed_a10(tier):
    return [{'rows': ['abcdefghijklmnopqrstuvwxyz', ' ' * 26, 'abcdefghijklmnopqrstuvwxyz', ''], 'colors': None, 'cfg': None,
             'limit': 'absent', 'box': 'str'},
            {'rows': [''], 'colors': None, 'cfg': None, 'limit': 'inf', 'box': 'str'},
            {'rows': ['a', ' a', 'a'], 'colors': ['red', 'blue'], 'cfg': None, 'limit': 'inf', 'box': 'list'}]


def run_a10(case, obs):
    import termcolor
    rows = case['rows']
    region, groups, touching = regions_of(rows)
    colors = case['colors'] or ['red', 'green', 'blue', 'yellow']
    uniq = list(dict.fromkeys(colors))
    lim = 1 if case['limit'] in ('absent', None) else None if case['limit'] == 'inf' else case['limit']
    small = len(uniq) ** len(groups) <= 4100
    if not small:
        if lim is None:
            lim, case = 6, dict(case, limit=6)
        want = None
    else:
        want = {t for t in itertools.product(uniq, repeat=len(groups)) if all(t[a] != t[b] for a, b in touching)}
    arg = {'str': '\n'.join(rows), 'list': list(rows), 'tuple': tuple(rows)}[case['box']]
    kw = options(case)
    M = mod('tool.ascii_map_coloring').AsciiMapColoringSolver
    solver = M(arg, case['colors'], **kw) if case['colors'] else M(arg, **kw)
    codes = {int(v): k for k, v in termcolor.COLORS.items() if k in uniq}
    got = []
    for m in take(solver, lim if lim is not None else len(want), 'the map coloring solver', spoil(case)):
        require([len(r) for r in m] == [len(r) for r in rows], 'the coloured map has another shape', rows=rows,
                shape=[len(r) for r in m])
        paint, label = [None] * len(groups), [None] * len(groups)
        for r, row in enumerate(m):
            for c, ch in enumerate(row):
                k = region.get((r, c))
                if k is None:
                    require(ch == ' ', 'background is not left blank', rows=rows, at=[r, c], got=repr(ch))
                    continue
                hit = ANSI.match(ch)
                require(hit and int(hit.group(1)) in codes and hit.group(2).strip(), 'a region cell is not painted in one of the colours',
                        rows=rows, at=[r, c], got=repr(ch), colors=colors)
                col = codes[int(hit.group(1))]
                require(paint[k] in (None, col), 'a region is painted in two colours', rows=rows, at=[r, c])
                paint[k] = col
                require(label[k] in (None, hit.group(2)), 'a region bears two labels', rows=rows, at=[r, c])
                label[k] = hit.group(2)
        for k, mark in enumerate(label):
            require(mark not in label[max(0, k - 35):k], 'regions less than 36 apart bear the same label', rows=rows, labels=label)
        for a, b in touching:
            require(paint[a] != paint[b], 'two touching regions have the same colour', rows=rows, paint=paint,
                    regions=[sorted(groups[a]), sorted(groups[b])])
        got.append(tuple(paint))
        obs.count('maps_decoded')
    if want is not None:
        judge_stream(got, want, lim, 'the map coloring solver', obs, rows=rows, colors=colors)
        judge_stats(solver, got, want, lim, 'the map coloring solver')
        if lim is None and touching and len(want) > 1:
            obs.nontrivial()
    else:
        require(len(set(got)) == len(got), 'a colouring is produced twice')
        obs.count('large_maps')
    if not groups:
        obs.count('maps_without_region')
    if len(set(rows[r][c] for g in groups for r, c in list(g)[:1])) < len(groups):
        obs.count('repeated_characters')
    if len({len(r) for r in rows}) > 1:
        obs.count('ragged')
    obs.peak('regions', len(groups))


register(Check(
    'A10', 'random maps up to 6x7 (ragged lines, dots and spaces, diagonal contacts, repeated characters, no region, many regions), 1-4 colours '
           'also repeated, every configuration; the painted output is decoded and compared with regions and colourings computed '
           'independently; non-trivial: every one of several colourings with touching regions',
    gen_a10, run_a10, quick=7200, thorough=60000, fixed=fixed_a10, env={'FORCE_COLOR': '1'},
    case_wall=8, heavy=lambda case: len({ch for r in case['rows'] for ch in r}) > 6 or sum(map(len, case['rows'])) > 20,
    need={'streams_judged': 1000, 'maps_decoded': 3000, 'maps_without_region': 30, 'repeated_characters': 300, 'ragged': 400,
          'without_solution': 100}))
