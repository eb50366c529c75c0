"""T01, T02: the command line, run in-process (and a few times as a process), its output parsed back and judged."""
import ast
import importlib
import io
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile

from vmon import runner, sut
from vmon.clock import CLOCK
from vmon.core import Check, Skip, Violation, register, require
from checks import apps

CAP = 60


# ------------------------------------------------------------------ problems
def gen_problem(rng, kind, tier):
    if kind == 'sudoku':
        grid = apps.random_grid(rng)
        for j in rng.sample(range(81), rng.randint(0, 25)):
            grid[j] = 0
        for j in apps.unavoidable(rng, grid):
            grid[j] = 0
        if rng.random() < 0.1:
            j = rng.randrange(81)
            grid[j] = grid[rng.choice(apps.PEERS[j])]
        return {'cells': grid}
    if kind == 'queens':
        return {'n': rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6])}
    if kind == 'cryptarithm':
        for _ in range(200):
            p = apps.gen_a05(rng, 0, 'quick')
            if p['source'][0] != '-' and len({c for c in p['source'].upper() if c.isalpha()}) < 5:
                return {'source': p['source'], 'z': rng.choice(['absent', 'absent', 'on', 'off', 'true', 'False', '0', '1',
                                                                'bare'])}
        raise Skip()
    if kind == 'graph_labeling':
        n = rng.randint(0, 5)
        names = [rng.choice(['node{}', 'n_{}', 'x{}']).format(k) for k in range(n)] if rng.random() < 0.7 else list(range(n))
        edges = [[a, b] for a in range(n) for b in range(a + 1, n) if rng.random() < 0.5]
        if edges and rng.random() < 0.2:
            edges.append(edges[0][::-1])
        if n and rng.random() < 0.08:
            edges.append([0, 0])
        m = rng.choice([0, 1, 2, 2, 3, 4])
        return {'names': names, 'edges': edges, 'directed': rng.random() < 0.2, 'multi': rng.random() < 0.2,
                'labels': (['red', 'blue', 'x y', '7', "it's"] if rng.random() < 0.6 else
                           rng.sample(['a,b', ' c', 'D;e', 'x=1', '', 'RED', 'red', '[1]', 'à', 'a b', '0', '1.5', 'None', '"q"', 'a/b', 'x:y'], 5))[:m] or None}
    if kind == 'ascii_map_coloring' and rng.random() < 0.12:
        return many_regions(rng)
    if kind == 'ascii_map_coloring':
        p = apps.gen_a10(rng, 0, 'quick')
        while len(apps.regions_of(p['rows'])[1]) > 12 or not all(' ' <= ch <= '~' for row in p['rows'] for ch in row):
            p = apps.gen_a10(rng, 0, 'quick')       # colouring many touching regions may take very long
        return {'rows': p['rows'], 'colors': p['colors']}
    if kind == 'nonogram' and rng.random() < 0.1:
        return large_nonogram(rng)
    if kind == 'nonogram':
        p = apps.gen_a03(rng, 0, 'quick')
        out = {'rows': p['rows'], 'cols': p['cols']}
        if rng.random() < 0.4:
            h, w = rng.randint(1, 5), rng.randint(1, 5)
            out = {'image': [''.join(rng.choice(' _##X') for _ in range(rng.randint(0, w))) for _ in range(h)]}
        return out
    if kind == 'knapsack' and rng.random() < 0.15:
        # many items of which few fit
        n, fit = rng.randint(10, 13), rng.choice([1, 1, 2])
        weight = rng.randint(1, 9)
        return {'values': [rng.randint(0, 20) for _ in range(n)], 'caps': [fit * weight + rng.randrange(weight), 1000],
                'weights': [[weight + rng.choice([0, 0, 0, 1, 1000]), rng.randint(0, 9)] for _ in range(n)], 'few': True}
    if kind == 'knapsack':
        p = apps.gen_a07(rng, 0, 'quick')
        return {k: p[k] for k in ('values', 'caps', 'weights')}
    return {}


def many_regions(rng):
    """Dozens of regions, touching at most in pairs: two colours suffice, in astronomically many ways."""
    h, w = rng.randint(1, 4), rng.randint(9, 14)
    rows = [[' '] * (3 * w) for _ in range(2 * h)]
    for r in range(h):
        for c in range(w):
            kind = rng.random()
            if kind < 0.85:
                rows[2 * r][3 * c] = chr(97 + (r * w + c) % 26)
            if kind < 0.4:
                rows[2 * r][3 * c + 1] = chr(97 + (r * w + c + 1) % 26)
    rows = [''.join(row).rstrip() if rng.random() < 0.5 else ''.join(row) for row in rows]
    return {'rows': rows, 'colors': rng.choice([['red', 'blue'], ['green', 'cyan', 'red'], None]), 'pairs': True}


def large_nonogram(rng):
    """Long lines, each a rectangle's shadow or nearly full: few solutions, quickly found."""
    n, m = rng.choice([1, 1, 2]), rng.randint(12, 90)
    pic = [[1] * m for _ in range(n)]
    if rng.random() < 0.5:
        a = rng.randint(0, m - 1)
        for row in pic:
            row[a] = 0
    elif n > 1 and rng.random() < 0.5:
        pic[rng.randrange(n)] = [0] * m
    if rng.random() < 0.5:
        pic = [list(col) for col in zip(*pic)]
    return {'rows': [apps.runs(r) for r in pic], 'cols': [apps.runs(c) for c in zip(*pic)]}


KINDS = ['sudoku', 'queens', 'cryptarithm', 'graph_labeling', 'ascii_map_coloring', 'nonogram', 'knapsack', 'einstein']


def gen_tool(rng, i, tier, timed):
    kind = KINDS[i % len(KINDS)]
    if kind == 'einstein' and rng.random() < 0.6:
        kind = rng.choice(KINDS[:-1])
    case = {'kind': kind, 'problem': gen_problem(rng, kind, tier), 'show': rng.random() < 0.15,
            'limit': rng.choice(['absent', 'absent', 'bare', 'bare', 'bare', 0, 1, 1, 2, 3, 7, 1000000]),
            'timeout': rng.choice(['absent', 'absent', 'bare', 1e9, '1e6']), 'long': rng.random() < 0.3,
            'default': kind not in ('einstein', 'queens', 'cryptarithm') and rng.random() < 0.04}
    if timed and rng.random() < 0.5:
        case['timeout'] = rng.choice([0, 0, 0.0, 1, 3, 10, 30, 100, 300, 3.5])
    if case['default'] and kind == 'sudoku' and case['limit'] not in (1, 'absent'):
        case['limit'] = 1      # the complete search of this default takes too long
    if kind == 'queens' and not timed and rng.random() < 0.25:
        n = rng.choice([7, 8, 8, 9, 10, 11, 13])
        case.update(problem={'n': n}, limit=rng.choice([1, 2, 3, 7]), absent=n == 8)
        if n > 9:
            case.update(limit=0, show=True)
    if case['problem'].get('pairs'):
        case['limit'] = rng.choice(['absent', 1, 2, 7])
    if kind == 'ascii_map_coloring' and case['default']:
        case['limit'] = rng.choice(['absent', 1, 5])
        case['problem']['colors'] = None
    return case


def argv_of(case, tmp):
    kind, p = case['kind'], case['problem']
    opts = []
    lo = case['long']

    def infile(text, flag='-i', long='--input-file'):
        path = os.path.join(tmp, 'input')
        with open(path, 'w') as f:
            f.write(text)
        opts.append([long if lo else flag, path])
    tail = []
    if case['default']:
        pass
    elif kind == 'sudoku':
        infile(json.dumps([p['cells'][9 * r:9 * r + 9] for r in range(9)]))
    elif kind == 'cryptarithm':
        tail = [p['source']]
    elif kind == 'graph_labeling':
        infile(json.dumps({'directed': p['directed'], 'multigraph': p['multi'], 'graph': {},
                           'nodes': [{'id': n} for n in p['names']],
                           'links': [dict({'source': p['names'][a], 'target': p['names'][b]},
                                          **({'key': k} if p['multi'] else {})) for k, (a, b) in enumerate(p['edges'])]}))
    elif kind == 'ascii_map_coloring':
        infile('\n'.join(p['rows']))
    elif kind == 'nonogram':
        if 'image' in p:
            infile('\n'.join(p['image']), '-I', '--input-image')
        else:
            infile(json.dumps({'rows': p['rows'], 'columns': p['cols']}))
    elif kind == 'knapsack':
        infile(json.dumps({'values': p['values'], 'capacities': p['caps'], 'weights': p['weights']}))
    if kind == 'queens' and not case.get('absent'):
        opts.append(['--board-size' if lo else '-b', str(p['n'])])
    if kind == 'graph_labeling' and p['labels']:
        opts.append(['--labels' if lo else '-L'] + p['labels'])
    if kind == 'ascii_map_coloring' and p['colors']:
        opts.append(['--colors' if lo else '-C'] + p['colors'])
    if kind == 'cryptarithm' and p['z'] != 'absent':
        opts.append(['--avoid-leading-zeros' if lo else '-z'] + ([] if p['z'] == 'bare' else [p['z']]))
    if case['limit'] != 'absent':
        opts.append(['--limit' if lo else '-l'] + ([] if case['limit'] == 'bare' else [str(case['limit'])]))
    if case['timeout'] != 'absent':
        opts.append(['--timeout' if lo else '-t'] + ([] if case['timeout'] == 'bare' else [str(case['timeout'])]))
    if case['show']:
        opts.append(['--show-model' if lo else '-s'])
    return [kind] + tail + [w for o in opts for w in o]


# ------------------------------------------------------------------ truth
def truth(case, out):
    """-> (set of frozen solutions or None when there are too many to list, membership test, default limit)"""
    kind, p = case['kind'], dict(case['problem'])
    if case['default']:
        text = out.split(':\n', 1)[1] if ':\n' in out else ''
        if kind == 'cryptarithm':
            p['source'] = text.split('\n')[0]
        elif kind == 'ascii_map_coloring':
            p['rows'] = text.split('\n\n\n=== ')[0].split('\n\n=== ')[0].split('\n')
        else:
            data = json.JSONDecoder().raw_decode(text.lstrip())[0]
            if kind == 'sudoku':
                p['cells'] = [v for row in data for v in row]
            elif kind == 'nonogram':
                p = {'rows': data['rows'], 'cols': data['columns']}
            elif kind == 'knapsack':
                p = {'values': data['values'], 'caps': data['capacities'], 'weights': data['weights']}
            elif kind == 'graph_labeling':
                names = [n['id'] for n in data['nodes']]
                p.update(names=names, edges=[[names.index(e['source']), names.index(e['target'])] for e in data['links']],
                         directed=data['directed'], multi=data['multigraph'])
    if kind == 'sudoku':
        ref = apps.sudoku_solve(p['cells'], CAP + 1)
        if ref is None or len(ref) > CAP:
            raise Skip()
        want = {tuple(tuple(w[9 * r:9 * r + 9]) for r in range(9)) for w in ref}
        return p, want, 1
    if kind == 'queens':
        return p, apps.queens_solve(p['n']) if p['n'] < 8 else None, None
    if kind == 'einstein':
        return p, set(apps.riddle_solutions()), None
    if kind == 'cryptarithm':
        if case['default']:
            # SEND+MORE==MONEY: too many permutations to enumerate; its single solution is well known
            require(p['source'] == 'SEND+MORE==MONEY', 'another default cryptarithm', source=p['source'])
            letters, want = sorted(set('SENDMOREMONEY')), {(7, 5, 1, 6, 0, 8, 9, 2)}
        else:
            letters, want = apps.crypt_solve(p['source'], p['z'] not in ('off', 'False', '0'))
        p['letters'] = letters
        if len(want) > 400:
            raise Skip()
        return p, want, None
    if kind == 'graph_labeling':
        labels = p['labels'] or ['red', 'blue', 'green']
        want = {t for t in itertools.product(labels, repeat=len(p['names'])) if all(t[a] != t[b] for a, b in p['edges'])}
        if len(want) > 400:
            raise Skip()
        return p, want, None
    if kind == 'ascii_map_coloring':
        colors = list(dict.fromkeys(p['colors'] or ['red', 'blue', 'green', 'yellow']))
        p['region'], p['groups'], p['touching'] = apps.regions_of(p['rows'])
        p['used'] = colors
        if case['limit'] in ('absent', 1, 2, 3, 7) and len(colors) ** len(p['groups']) > 5000:
            if case['problem'].get('rows') and not case['default'] and not case['problem'].get('pairs'):
                raise Skip()
            return p, None, 1
        if len(colors) ** len(p['groups']) > 5000:
            raise Skip()
        want = {t for t in itertools.product(colors, repeat=len(p['groups'])) if all(t[a] != t[b] for a, b in p['touching'])}
        if len(want) > 400:
            raise Skip()
        return p, want, 1
    if kind == 'nonogram':
        if 'image' in p:
            w = max(len(l) for l in p['image'])
            pic = [[int(ch not in ' _') for ch in l] + [0] * (w - len(l)) for l in p['image']]
            p['rows'] = [apps.runs(r) for r in pic]
            p['cols'] = [apps.runs([r[c] for r in pic]) for c in range(w)]
        want = set(apps.nonogram_solve(p['rows'], p['cols'], CAP))
        if len(want) > CAP:
            raise Skip()
        return p, want, None
    if kind == 'knapsack':
        best = None
        n = len(p['values'])
        some = itertools.product((0, 1), repeat=n)
        if case['problem'].get('few') and not case['default']:
            some = (tuple(int(k in chosen) for k in range(n)) for r in range(3) for chosen in itertools.combinations(range(n), r))
        for sel in some:
            if all(sum(s * w[k] for s, w in zip(sel, p['weights'])) <= c for k, c in enumerate(p['caps'])):
                v = sum(s * x for s, x in zip(sel, p['values']))
                best = v if best is None or v > best else best
        p['best'] = best
        return p, None, None


# ------------------------------------------------------------------ reading the output back
HEAD = re.compile(r'^=== solution (\d+) ===$')
CLOSING = re.compile(r'^Found (?:(unique) solution|all (\d+) solutions?|(\d+) partial solutions?) in ([0-9.]+) seconds'
                     r'(?: \[(\w+) reached\])?$')
OPT_CLOSING = re.compile(r'^Found (optimal|sub-optimal) solution in ([0-9.]+) seconds after (\d+) solve iterations?'
                         r'(?: \[(\w+) reached\])?$')
SENTENCE = re.compile(r'The (.+), who lives in the (.+?) (\w+) house, drinks (.+), smokes (.+) and has (.+)\.$')


def split_output(out, closing):
    """-> preamble lines, [(number, body lines)], match of the closing line"""
    lines = out.rstrip('\n').split('\n')
    last = closing.match(lines[-1]) if lines else None
    require(last, 'the output does not end with a closing line', last=lines[-3:])
    pre, blocks = [], []
    for line in lines[:-1]:
        m = HEAD.match(line)
        if m:
            blocks.append((int(m.group(1)), []))
        elif blocks:
            blocks[-1][1].append(line)
        else:
            pre.append(line)
    for _, body in blocks:
        if body and body[-1] == '':     # the blank line before the next header or the closing line
            body.pop()
    return pre, blocks, last


def read_solution(kind, p, body):
    if kind in ('sudoku', 'queens'):
        require(len({len(l) for l in body}) <= 1, 'the lines of the %s are not of one length' % kind, body=body)
    if kind == 'sudoku':
        rows = [[int(t) for t in re.findall('[0-9]', l)] for l in body if l.startswith('│')]
        return tuple(tuple(r) for r in rows)
    if kind == 'queens':
        rows = [[int('♛' in cell) for cell in l[1:-1].split('│')] for l in body if l.startswith('│')]
        return tuple(tuple(r) for r in rows)
    if kind == 'cryptarithm':
        got = dict(l.split(' = ') for l in body if re.match('^[A-Z] = [0-9]$', l))
        require(sorted(got) == p['letters'], 'the digits printed are not one for each letter', body=body, letters=p['letters'])
        shown = [l[4:] for l in body if l.startswith('==> ')]
        text = ''.join(got.get(ch, ch) for ch in p['source'].upper())
        require(shown == [text], 'the equation is not shown with the digits substituted', shown=shown, want=text)
        return tuple(int(got[l]) for l in p['letters'])
    if kind == 'graph_labeling':
        d = ast.literal_eval('\n'.join(body))
        require(set(d) == set(p['names']), 'the labeling printed does not label exactly the nodes', body=body)
        return tuple(d[n] for n in p['names'])
    if kind == 'ascii_map_coloring':
        return read_map(p, body)
    if kind == 'nonogram':
        nc = len(p['cols'])
        # the picture has its whole shape, blank lines and columns included
        require(len(body) == max(1, len(p['rows'])) and all(len(l) == (nc if p['rows'] else 0) for l in body),
                'the picture printed has another shape', body=body, shape=[len(p['rows']), nc])
        rows = [tuple(int(ch == '#') for ch in l.ljust(nc)) for l in body]
        while len(rows) < len(p['rows']):
            rows.append((0,) * nc)
        if not p['rows']:
            rows = [r for r in rows if any(r)]
        return tuple(rows)
    if kind == 'einstein':
        ordinal = ['first', 'second', 'third', 'fourth', 'fifth']
        at = {}
        for l in body:
            m = SENTENCE.search(l)
            if m:
                house = ordinal.index(m.group(2)) + 1
                for thing in (m.group(1), m.group(3), m.group(4), m.group(5), m.group(6)):
                    at[thing] = house
                require(l.startswith('[*]') == (m.group(6) == 'a zebra'), 'the owner of the zebra is not the one marked', line=l)
        return tuple(sorted(at.items()))


def read_map(p, body):
    import termcolor
    codes = {str(v): k for k, v in termcolor.COLORS.items() if k in p['used']}
    paint = [None] * len(p['groups'])
    lines = body + [''] * (len(p['rows']) - len(body))
    require(len(lines) == len(p['rows']) or not any(lines[len(p['rows']):]), 'the map printed has another number of lines',
            lines=len(body), rows=p['rows'])
    for r, row in enumerate(p['rows']):
        cells = re.findall('\x1b\\[(\\d+)m(.)\x1b\\[0m|(.)', lines[r])
        cells += [('', '', ' ')] * (len(row) - len(cells))
        for c in range(len(cells)):
            k = p['region'].get((r, c))
            code, glyph, plain = cells[c]
            if k is None:
                require(plain == ' ', 'background is printed as something else', line=lines[r], at=[r, c])
                continue
            require(code in codes, 'a region cell is not printed in one of the colours', line=lines[r], at=[r, c], row=row)
            require(paint[k] in (None, codes[code]), 'a region is printed in two colours', at=[r, c])
            paint[k] = codes[code]
    for a, b in p['touching']:
        require(paint[a] != paint[b], 'two touching regions have the same colour', paint=paint)
    return tuple(paint)


# ------------------------------------------------------------------ running
MODELS = []        # the models built by the last run in this process


def watch_models():
    model = sut.S().model.Model
    if not hasattr(model, 'vmon_watched'):
        init = model.__init__

        def watched(self, *args, **kwargs):
            MODELS.append(self)
            return init(self, *args, **kwargs)
        model.__init__ = watched
        model.vmon_watched = True
    del MODELS[:]


def run_main(argv):
    watch_models()
    tool = importlib.import_module('satisfy.tool')
    buf = io.StringIO()
    saved = sys.argv, sys.stdout
    sys.argv, sys.stdout = ['satisfy'] + argv, buf
    try:
        tool.main()
    except SystemExit as exc:
        if exc.code not in (None, 0):
            raise Violation('the command line refuses {}'.format(argv), key='refused')
    finally:
        sys.argv, sys.stdout = saved
    return buf.getvalue()


def run_process(argv):
    src = os.path.join(os.environ.get('VMON_REPO', '/repo'), 'src')
    code = 'import sys; sys.path.insert(0, {!r}); from satisfy.tool import main; main()'.format(src)
    args, env = runner.child(['-c', code] + argv, PYTHONIOENCODING='utf-8', FORCE_COLOR='1')
    r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        raise Violation('the command fails', argv=argv, stderr=r.stderr.decode('utf-8', 'replace')[-2000:])
    return r.stdout.decode('utf-8')


def execute(case, tick=0.0):
    with tempfile.TemporaryDirectory(prefix='vmon-tool-') as tmp:
        argv = argv_of(case, tmp)
        t0 = CLOCK.t
        del MODELS[:]
        CLOCK.tick = tick
        try:
            out = run_process(argv) if case.get('process') else run_main(argv)
        finally:
            CLOCK.tick = 0.0
        return argv, out, CLOCK.t - t0


def run_t01(case, obs):
    kind = case['kind']
    argv, out, _ = execute(case)
    p, want, default_limit = truth(case, out)
    obs.count('runs_' + kind)
    if case.get('process'):
        obs.count('processes')
    require(('=== model variables: ===' in out) == bool(case['show']), 'the model is shown although not asked for, or not shown',
            argv=argv)
    if case['show']:
        judge_model(out, argv, MODELS, obs)
        obs.count('models_shown')
    if kind == 'knapsack':
        judge_knapsack(case, p, out, obs, argv)
        return
    pre, blocks, last = split_output(out, CLOSING)
    require([n for n, _ in blocks] == list(range(1, len(blocks) + 1)), 'the solutions are not numbered from one',
            numbers=[n for n, _ in blocks], argv=argv)
    limit = {'absent': default_limit, 'bare': None}.get(case['limit'], case['limit'])
    got = [read_solution(kind, p, body) for _, body in blocks]
    if want is None and kind == 'queens':
        for board in got:
            at = [(r, c) for r, row in enumerate(board) for c, v in enumerate(row) if v]
            require(len(board) == p['n'] == len(at) and all(len(row) == p['n'] for row in board), 'the board has another size or number of queens',
                    board=board)
            require(len({r for r, c in at}) == len({c for r, c in at}) == len({r + c for r, c in at}) == len({r - c for r, c in at}) == p['n'],
                    'two queens attack each other', board=board)
        obs.count('large_boards')
    if want is None:
        require(len(got) == limit and len(set(got)) == len(got), 'the number of solutions printed is not the limit', argv=argv,
                printed=len(got), limit=limit)
    else:
        apps.judge_stream(got, want, limit, 'the command line', obs, argv=argv)
    if kind == 'sudoku':
        shown = [re.findall('[0-9.]', l) for l in pre if l.startswith('│')][-9:]
        require(shown == [[str(v) if v else '.' for v in p['cells'][9 * r:9 * r + 9]] for r in range(9)],
                'the schema is not shown as given', shown=shown)
    if got:
        obs.nontrivial()
        obs.count('solutions_read_back', len(got))
        obs.peak('largest_printed_solution', max(len(b) * max(map(len, b), default=0) for _, b in blocks))
        if kind == 'nonogram' and max(len(p['rows']), len(p['cols'])) > 11 or kind == 'ascii_map_coloring' and len(p['groups']) > 18:
            obs.count('large_inputs')
    obs.count('default_input' if case['default'] else 'given_input')


MODEL_VARIABLE = re.compile(r"^ *(\d+)\) '(\w+)' domain: \((.*)\)$")
MODEL_CONSTRAINT = re.compile(r'^ *(\d+)\) (.+)$')


def judge_model(out, argv, models=(), obs=None):
    """The model shown: its variables with their domains, then its constraints, which mention no other name.
    Run in this process, the models the tool built are known, and what is shown must be one of them."""
    part = out.split('\n=== model variables: ===\n', 1)[1]
    require('\n=== model constraints: ===\n' in '\n' + part, 'the constraints of the model are not shown', argv=argv)
    names, cons, domains = [], [], []
    variables, rest = ('\n' + part).split('\n=== model constraints: ===\n', 1)
    for line in variables.strip('\n').split('\n') if variables.strip('\n') else []:
        m = MODEL_VARIABLE.match(line)
        require(m and int(m.group(1)) == len(names), 'the variables of the model are not listed in order with their domains', line=line,
                argv=argv)
        names.append(m.group(2))
        domains.append(m.group(3))
    for line in rest.split('\n'):
        m = MODEL_CONSTRAINT.match(line)
        if not m or int(m.group(1)) != len(cons):
            break
        cons.append(m.group(2))
    used = {w for c in cons for w in re.findall(r'[A-Za-z]\w*', c)} - {'sum', 'prod', 'abs', 'True', 'False', 'AllDifferentConstraint'}
    require(len(set(names)) == len(names) and used <= set(names), 'the constraints shown mention other names than the variables',
            unknown=sorted(used - set(names)), argv=argv)
    if models:
        listed = [(n, [w.strip() for w in d.split(',') if w.strip()]) for n, d in zip(names, domains)]
        built = [([(n, [repr(v) for v in info.domain]) for n, info in model.variables().items()], len(tuple(model.constraints())))
                 for model in models]
        require((listed, len(cons)) in built, 'the model shown is none of those built: variables, domains or constraints are missing or changed',
                argv=argv, listed=listed[:12], constraints=len(cons))
        obs.count('models_shown_compared')
        obs.peak('largest_domain_shown', max((len(d) for _, d in listed), default=0))


def judge_knapsack(case, p, out, obs, argv):
    m = re.search(r"^is_optimal: (\w+)$", out, re.M)
    require(m, 'the knapsack result does not say whether it is optimal', argv=argv)
    sol = re.search(r"^solution: '(.*)'$", out, re.M)
    n = len(p['values'])
    limited = isinstance(case['limit'], int) and case['limit'] < 1000
    if sol is None:
        require('no solution found' in out, 'neither a selection nor its absence is printed')
        require(p['best'] is None or (limited and case['limit'] == 0), 'no selection is printed although one is feasible',
                best=p['best'], argv=argv)
        require(m.group(1) == 'False', 'no selection is called optimal')
        return
    marks = sol.group(1).split(' ') if n else []
    require(len(marks) == n and set(marks) <= {'X', '_'}, 'the selection printed has the wrong form', printed=sol.group(1))
    sel = [int(x == 'X') for x in marks]
    value = int(re.search(r'^value: (-?\d+)$', out, re.M).group(1))
    weights = ast.literal_eval(re.search(r'^weights: (.*)$', out, re.M).group(1))
    require(value == sum(s * v for s, v in zip(sel, p['values'])), 'the value printed is not that of the selection', value=value, sel=sel)
    require(list(weights) == [sum(s * w[k] for s, w in zip(sel, p['weights'])) for k in range(len(p['caps']))],
            'the weights printed are not those of the selection', weights=weights, sel=sel)
    require(all(w <= c for w, c in zip(weights, p['caps'])), 'the selection printed exceeds a capacity', weights=weights)
    if m.group(1) == 'True' or not limited:
        require(value == p['best'], 'the selection printed is not the best', value=value, best=p['best'], argv=argv)
    require(limited or m.group(1) == 'True', 'an uninterrupted optimum is not called optimal', argv=argv)
    obs.count('knapsack_results')
    obs.nontrivial()


def fixed_t01(tier):
    base = {'show': False, 'limit': 'absent', 'timeout': 'absent', 'long': False, 'default': True, 'problem': {}}
    out = [dict(base, kind=k, limit=1 if k == 'cryptarithm' else 'absent',
                problem={'ascii_map_coloring': {'colors': None}, 'cryptarithm': {'z': 'absent'},
                         'graph_labeling': {'labels': None}}.get(k, {}))
           for k in KINDS if k not in ('einstein', 'queens')]
    out = [dict(c, process=True) for c in out] + [c for c in out if c['kind'] != 'cryptarithm']
    out.append(dict(base, kind='einstein', default=False, process=True))
    out.append(dict(base, kind='queens', default=False, process=True, problem={'n': 5}))
    out.append(dict(base, kind='queens', default=False, process=True, problem={'n': 4}, limit=1, show=True))
    return out


register(Check(
    'T01', 'every subcommand with generated problems from the command line, input files and defaults, short and long options, limits with and '
           'without a value, labels, colours, leading-zero settings, show-model; in-process and some as a real process; the printed '
           'solutions are parsed back and compared with the complete set computed independently; non-trivial: at least one '
           'solution printed',
    lambda rng, i, tier: gen_tool(rng, i, tier, False), run_t01, quick=2400, thorough=40000, fixed=fixed_t01,
    env={'FORCE_COLOR': '1'}, case_wall=60, heavy=lambda case: case['default'],
    need=dict({'runs_' + k: 60 for k in KINDS}, processes=3, models_shown_compared=60, solutions_read_back=2000, knapsack_results=60, large_inputs=10)))


# ------------------------------------------------------------------ T02
def run_t02(case, obs):
    kind = case['kind']
    tick = 1.0 if isinstance(case['timeout'], (int, float)) and case['timeout'] < 1e6 else 0.0
    argv, out, passed = execute(case, tick)
    p, want, default_limit = truth(case, out)
    limit = {'absent': default_limit, 'bare': None}.get(case['limit'], case['limit'])
    finite = case['timeout'] not in ('absent', 'bare')
    if kind == 'knapsack':
        last = OPT_CLOSING.match(out.rstrip('\n').split('\n')[-1])
        require(last, 'the output does not end with a closing line', out=out[-200:])
        status, secs, count, cause = last.groups()
        value = re.search(r'^value: (-?\d+)$', out, re.M)
        flag = re.search(r'^is_optimal: (\w+)$', out, re.M).group(1)
        require((status == 'optimal') == (flag == 'True'), 'the summary and the result disagree about optimality', out=out[-300:])
        require(float(secs) <= passed + 0.001 or not tick, 'more seconds than there were', out=out[-200:])
        if status == 'optimal':
            require(cause is None, 'an interrupted optimization is summarised as optimal', argv=argv, closing=last.group())
            require(value and int(value.group(1)) == p['best'], 'the summary says optimal although the value is not', argv=argv,
                    value=value and value.group(1), best=p['best'])
            obs.count('optimal_claims')
        else:
            # no interruption: the search was complete, and only the absence of a solution is not an optimum
            require(cause is not None or value is None, 'an uninterrupted optimum is summarised as sub-optimal', argv=argv)
            obs.count('sub_optimal_claims')
        check_cause(cause, limit, int(count), finite, argv, last.group())
        require(limit is None or int(count) <= limit, 'an optimization goes on beyond its limit', limit=limit, argv=argv,
                closing=last.group())
        obs.count('knapsack_limited', limit is not None)
        if case['timeout'] == 0 and len(p['values']) > 1:
            require(status != 'optimal' and int(count) <= 1, 'a search without any time to spend goes on to the end', argv=argv,
                    closing=last.group())
            obs.count('no_time_to_spend')
        obs.count('runs_' + kind)
        return
    pre, blocks, last = split_output(out, CLOSING)
    unique, total, partial, secs, cause = last.groups()
    printed = len(blocks)
    claim = 1 if unique else int(total if total is not None else partial)
    require(claim == printed, 'the closing line counts {} solutions, {} were printed'.format(claim, printed), argv=argv,
            closing=last.group())
    require(float(secs) <= passed + 0.001 or not tick, 'more seconds than there were', closing=last.group())
    if partial is None:
        require(cause is None, 'a complete search with a cause of interruption', closing=last.group())
        require(want is None or printed == len(want), 'the closing line claims {} solutions, there are {}'.format(
            'a unique' if unique else 'all %d' % claim, want and len(want)), argv=argv, closing=last.group())
        require(want is not None or limit is None or printed < limit, 'a cut enumeration is called complete')
        obs.count('complete_claims')
    else:
        require(cause is not None, 'a partial enumeration without its cause', closing=last.group())
        obs.count('partial_' + cause)
        obs.nontrivial()
    require(limit is None or printed <= limit, 'more solutions than the limit', limit=limit, printed=printed, argv=argv)
    obs.count('limit_zero', limit == 0)
    check_cause(cause, limit, printed, finite, argv, last.group())
    if case['timeout'] == 0 and want and limit != 0 and decisions(kind, p) > 1:
        # the clock ticks at every reading: the time is exceeded when the first of several variables has been tried
        require(printed <= 1 and cause is not None, 'a search without any time to spend goes on', argv=argv, closing=last.group())
        require(cause == 'timeout' or limit == 1, 'a search without any time to spend ends for another cause', argv=argv,
                closing=last.group())
        obs.count('no_time_to_spend')
    if limit is not None and printed == limit and partial is None and not (limit == 0 and want is not None and not want):
        raise Violation('an enumeration cut by its limit is not reported as partial', argv=argv, closing=last.group())
    obs.count('runs_' + kind)


def decisions(kind, p):
    """A lower bound of the number of variables any formulation of the problem has to choose values for."""
    return {'sudoku': lambda: sum(not v for v in p['cells']), 'queens': lambda: p['n'], 'cryptarithm': lambda: len(p['letters']),
            'graph_labeling': lambda: len(p['names']), 'ascii_map_coloring': lambda: len(p['groups']),
            'nonogram': lambda: min(sum(1 for r in p['rows'] if r), sum(1 for c in p['cols'] if c)), 'einstein': lambda: 25}[kind]()


def check_cause(cause, limit, count, finite, argv, closing):
    if cause is None:
        return
    require(cause in ('limit', 'timeout'), 'an unknown cause', closing=closing)
    if cause == 'limit':
        require(limit is not None and count == limit, 'the limit is named as the cause although it was not reached', limit=limit,
                count=count, argv=argv, closing=closing)
    else:
        require(finite, 'a timeout is named as the cause although there is none', argv=argv, closing=closing)


register(Check(
    'T02', 'every subcommand with generated problems, limits and timeouts on a ticking virtual clock (so that timeouts strike at many points of '
           'the search); the claim of the closing line is compared with the number of solutions printed and the complete number '
           'computed independently; non-trivial: an enumeration reported as partial',
    lambda rng, i, tier: gen_tool(rng, i, tier, True), run_t02, quick=4000, thorough=50000, virtual_clock=True,
    env={'FORCE_COLOR': '1'}, case_wall=20,
    need=dict({'runs_' + k: 60 for k in KINDS}, complete_claims=300, partial_limit=200, partial_timeout=100, optimal_claims=30,
              sub_optimal_claims=20, no_time_to_spend=80)))


# ------------------------------------------------------------------ T03
OPTIONS = {'sudoku': ['-i', '--input-file'], 'queens': ['-b', '--board-size'], 'einstein': [], 'knapsack': ['-i', '--input-file'],
           'graph_labeling': ['-i', '--input-file', '-L', '--labels'], 'ascii_map_coloring': ['-i', '--input-file', '-C', '--colors'],
           'cryptarithm': ['-z', '--avoid-leading-zeros', 'source'], 'nonogram': ['-i', '--input-file', '-I', '--input-image']}
FILED = ['sudoku', 'knapsack', 'graph_labeling', 'nonogram']


def gen_t03(rng, i, tier):
    what = ['refuse', 'refuse', 'stdin', 'refuse', 'refuse', 'stdin', 'refuse', 'help'][i % 8]
    case = {'what': what, 'process': rng.random() < 0.006}
    if what == 'help':
        case['kind'] = rng.choice(KINDS + [None])
        case['how'] = rng.choice(['-h', '--help', 'example', 'example'] if case['kind'] != 'cryptarithm' else ['-h', '-h', '--help', 'example']) if case['kind'] else rng.choice(['-h', '--help', ''])
        return case
    if what == 'stdin':
        case['kind'] = rng.choice(FILED + ['ascii_map_coloring', 'nonogram'])
        case.update(problem=gen_problem(rng, case['kind'], tier), show=rng.random() < 0.1, limit=rng.choice([1, 2, 5]), timeout='absent',
                    long=rng.random() < 0.3, default=False)
        return case
    how = rng.choice(['option', 'option', 'value', 'value', 'value', 'command', 'missing', 'directory', 'broken', 'broken', 'part', 'part',
                      'schema', 'schema', 'schema', 'source', 'source', 'extra', 'both', 'nothing'])
    case['how'] = how
    kind = rng.choice(KINDS)
    args = []
    if how == 'option':
        args = [kind, rng.choice(['--no-such-option', '-q', '--limits=3', '-x', '--input'] + (['-b', '--labels'] if kind == 'einstein' else []))]
        if args[1] == '--input':
            args = ['queens', '--input', '3']
    elif how == 'value':
        opt, val = rng.choice([('-l', 'x'), ('-l', '1.5'), ('--limit', 'ten'), ('--limit', '3x'), ('-t', 'x'), ('--timeout', 'soon'), ('-t', '1,5'),
                               ('-b', 'x'), ('-b', '2.5'), ('--board-size', 'four'), ('-b', ''), ('-z', 'maybe'), ('--avoid-leading-zeros', 'o'),
                               ('-L', None), ('-C', None), ('-b', None), ('-i', None)])
        if opt in ('-b', '--board-size'):
            kind = 'queens'
        elif opt in ('-z', '--avoid-leading-zeros'):
            kind = 'cryptarithm'
        elif opt in ('-L', '-C', '-i'):
            kind = {'-L': 'graph_labeling', '-C': 'ascii_map_coloring', '-i': rng.choice(FILED)}[opt]
        args = [kind] + (['A==B'] if kind == 'cryptarithm' and rng.random() < 0.5 else []) + [opt] + ([val] if val is not None else [])
    elif how == 'command':
        args = [rng.choice(['sudokus', 'solve', 'graph-labeling', 'Queens', 'model', 'nonograms'])] + rng.choice([[], ['-l', '1']])
    elif how in ('missing', 'directory'):
        kind = rng.choice(FILED + ['ascii_map_coloring'])
        args = [kind, '-i', '@missing' if how == 'missing' else '@directory']
    elif how == 'both':
        args = ['nonogram', '-i', '@file', '-I', '@file']
        case['text'] = json.dumps({'rows': [[1]], 'columns': [[1]]})
    elif how == 'extra':
        kind = rng.choice([k for k in KINDS if k != 'cryptarithm'])
        args = [kind, 'more']
    elif how == 'nothing':
        kind = rng.choice(FILED)
        args, case['text'] = [kind, '-i', '@file'], rng.choice(['', '\n', 'hello', '{', '[1, 2', '\x00', '"abc'])
    elif how == 'source':
        src = gen_problem(rng, 'cryptarithm', tier)['source']
        args = ['cryptarithm', rng.choice([src + '+', src + '==', '*' + src, '(' + src, src + ')', src + '=B', src.replace('==', '=') if '==' in src else
                                           src + '(', src + ' A', src + '+*A', '((' + src + ')', src + '!A', '==' + src, src + '<'])]
    else:
        kind = rng.choice(FILED if how != 'schema' else ['sudoku', 'knapsack'])
        if how == 'schema':
            for _ in range(100):
                p = apps.gen_a02(rng, 0, tier)
                if p['defect'] and p['what'] == kind:
                    break
            text = json.dumps(p['rows'] if kind == 'sudoku' else {'values': p['values'], 'capacities': p['caps'], 'weights': p['weights']})
        else:
            p = gen_problem(rng, kind, tier)
            while 'image' in p:
                p = gen_problem(rng, kind, tier)
            data = ([p['cells'][9 * r:9 * r + 9] for r in range(9)] if kind == 'sudoku' else
                    {'rows': p['rows'], 'columns': p['cols']} if kind == 'nonogram' else
                    {'values': p['values'], 'capacities': p['caps'], 'weights': p['weights']} if kind == 'knapsack' else
                    {'directed': False, 'multigraph': False, 'graph': {}, 'nodes': [{'id': n} for n in p['names']],
                     'links': [{'source': p['names'][a], 'target': p['names'][b]} for a, b in p['edges']]})
            if how == 'part':
                key = {'sudoku': None, 'nonogram': rng.choice(['rows', 'columns']), 'graph_labeling': 'nodes',
                       'knapsack': rng.choice(['values', 'weights', 'capacities'])}[kind]
                if key is None:
                    data = {'schema': data}
                else:
                    value = data.pop(key)
                    if rng.random() < 0.3:
                        data[key + '_'] = value
                text = json.dumps(data)
            else:
                text = json.dumps(data)
                at = rng.randrange(len(text))
                text = rng.choice([text[:at], text + text[-1], text + ' x', text.replace('[', '(', 1), text[1:]])
        args, case['text'] = [kind, '-i', '@file'], text
        if rng.random() < 0.3:
            args += ['-l', '3']
    case['args'] = args
    return case


def invoke(argv, process, stdin=None):
    """-> exit status (0, other, or an exception's name), standard output"""
    if process:
        src = os.path.join(os.environ.get('VMON_REPO', '/repo'), 'src')
        code = 'import sys; sys.path.insert(0, {!r}); from satisfy.tool import main; main()'.format(src)
        args, env = runner.child(['-c', code] + argv, PYTHONIOENCODING='utf-8', FORCE_COLOR='1')
        r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=(stdin or '').encode())
        return r.returncode, r.stdout.decode('utf-8')
    sut.S()
    tool = importlib.import_module('satisfy.tool')
    buf = io.StringIO()
    saved = sys.argv, sys.stdout, sys.stdin
    sys.argv, sys.stdout, sys.stdin = ['satisfy'] + argv, buf, io.StringIO(stdin or '')
    status = 0
    try:
        tool.main()
    except SystemExit as exc:
        status = exc.code or 0
    except Exception as exc:
        status = type(exc).__name__
    finally:
        sys.argv, sys.stdout, sys.stdin = saved
    return status, buf.getvalue()


def shows_result(out):
    return '=== solution' in out or '=== optimal_solution' in out or re.search('^Found ', out, re.M)


def numbered(out):
    """What was printed, without the seconds."""
    return re.sub(r'in [0-9.]+ seconds', 'in some seconds', out)


def run_t03(case, obs):
    what = case['what']
    obs.count('runs_in_a_process' if case['process'] else 'runs')
    if what == 'refuse':
        with tempfile.TemporaryDirectory(prefix='vmon-tool-') as tmp:
            path = os.path.join(tmp, 'input')
            if 'text' in case:
                with open(path, 'w') as f:
                    f.write(case['text'])
            argv = [{'@file': path, '@missing': os.path.join(tmp, 'missing'), '@directory': tmp}.get(a, a) for a in case['args']]
            status, out = invoke(argv, case['process'])
        require(not shows_result(out), 'a result is printed for an input or command line that makes no sense', args=case['args'],
                text=case.get('text', '')[:500], out=out[-500:])
        require(status != 0, 'an input or command line that makes no sense is accepted', args=case['args'], text=case.get('text', '')[:500],
                out=out[-300:])
        obs.count('refused_' + case['how'])
        obs.see('refusal', [case['args'], case.get('text')])
        obs.nontrivial()
        return
    if what == 'stdin':
        with tempfile.TemporaryDirectory(prefix='vmon-tool-') as tmp:
            argv = argv_of(case, tmp)
            path = os.path.join(tmp, 'input')
            with open(path) as f:
                text = f.read()
            one = invoke(argv, False)
            two = invoke(['-' if a == path else a for a in argv], case['process'], text)
        require(one[0] == 0, 'the command line refuses a problem', argv=argv, status=one[0])
        require(two[0] == 0 and numbered(one[1]) == numbered(two[1]), 'a problem on the standard input is treated unlike one in a file', argv=argv,
                file=one[1][-400:], stdin=[two[0], two[1][-400:]])
        obs.count('standard_inputs')
        obs.nontrivial()
        return
    kind, how = case['kind'], case['how']
    status, out = invoke(([kind] if kind else []) + (['-h'] if how == 'example' else [how] if how else []), case['process'])
    require(status == 0, 'asking for help fails', status=status)
    require(not shows_result(out), 'asking for help solves something', out=out[-300:])
    words = set(re.findall(r'[\w-]+', out))
    expect = KINDS if kind is None else OPTIONS[kind] + ['-t', '--timeout', '-l', '--limit', '-s', '--show-model', '-h', '--help']
    require(all(w in words for w in expect), 'the help leaves out {}'.format([w for w in expect if w not in words]), kind=kind)
    obs.count('helps')
    if kind is None and not how:
        asked = invoke(['-h'], False)
        require(asked[1].split() == out.split(), 'without a subcommand the tool prints something else than its help', out=out[-500:])
        obs.count('helps_without_subcommand')
    if how != 'example':
        return
    opts = ['-l', '1'] if kind in ('sudoku', 'cryptarithm') else []
    if kind == 'cryptarithm':
        source = re.search(r'^\S+==\S+$', out, re.M)
        require(source, 'the help shows no cryptarithm')
        one, two = invoke([kind] + opts, False), invoke([kind, source.group()] + opts, case['process'])
    elif kind in FILED:
        for m in re.finditer(r'[\[{]', out):
            try:
                data = json.JSONDecoder().raw_decode(out[m.start():])[0]
            except ValueError:
                continue
            if isinstance(data, dict) or len(data) == 9:
                break
        else:
            raise Violation('the help of {} shows no example'.format(kind))
        one, two = invoke([kind] + opts, False), invoke([kind, '-i', '-'] + opts, case['process'], json.dumps(data))
    else:
        return
    require(one[0] == 0 and two[0] == 0, 'the example of the help, or the default problem, is refused', kind=kind, statuses=[one[0], two[0]])
    tails = [numbered(re.search(r'^=== .*', o, re.M | re.S).group() if '=== ' in o else o) for _, o in (one, two)]
    require(tails[0] == tails[1], 'the example of the help is not the default problem', kind=kind, default=tails[0][:500], example=tails[1][:500])
    obs.count('examples_' + kind)
    obs.nontrivial()


register(Check(
    'T03', 'command lines that make no sense (20 kinds: options, values, files, broken JSON, missing parts, malformed schemas and sources), help '
           'requests, the examples of the help run as input, and problems read from the standard input; judged on the exit status and on what '
           'was printed; non-trivial: a refusal, or two runs compared',
    gen_t03, run_t03, quick=4000, thorough=60000, env={'FORCE_COLOR': '1'}, case_wall=30,
    need=dict({'refused_' + h: 40 for h in ('option', 'value', 'command', 'missing', 'broken', 'part', 'schema', 'source', 'extra', 'both', 'nothing')},
              standard_inputs=500, helps=200, runs_in_a_process=8, examples_cryptarithm=4, **{'examples_' + k: 10 for k in FILED})))
