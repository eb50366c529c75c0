"""Run in a process of its own: the solution streams of a batch of jobs, in order, printed as JSON.

argv[1] is /verif; the jobs come on stdin.  What comes out must not depend on the process or its hash seed.
"""
import itertools
import json
import logging
import os
import random
import sys

CAP = 400


def frozen(x):
    if isinstance(x, dict):
        return sorted([[repr(k), frozen(v)] for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    return repr(x)


SOLVERS = {}      # one solver per configuration, serving all the jobs of the process


def shared_solver(cfg):
    from vmon import sut
    k = tuple(cfg)
    if k not in SOLVERS:
        SOLVERS[k] = sut.make_solver(cfg)
    return SOLVERS[k]


def model_job(job, built=None, solver=None):
    from vmon import sut
    b = built or sut.Built(job['spec'])
    s = sut.S()
    kw = {'limit': job['limit']}
    if job.get('extra'):
        kw['additional_constraints'] = [b.constraint(c) for c in job['extra']]
    solver = solver or sut.make_solver(job['cfg'])
    out = [[frozen(x) for x in itertools.islice(solver.solve(b.model, **kw), CAP)]]
    kind = s.objective.Minimize if job['mm'] == 'm' else s.objective.Maximize
    obj = kind(sut.build_expr(job['objective'], b.var, b.par))
    out.append([frozen(x.solution) for x in itertools.islice(solver.optimize(b.model, obj, **kw), CAP)])
    best = solver.optimal_solution(b.model, obj, **kw)
    out.append([frozen(best.solution), bool(best.is_optimal)])
    return out, b, solver


def app_job(job):
    from checks import apps
    p, kw = job['problem'], {'limit': job['limit']}
    kind = job['app']
    if job.get('policy'):
        from vmon import sut
        kw['var_selection_policy'] = sut.policy(job['policy'])
    if kind == 'sudoku':
        it = apps.mod('sudoku').SudokuSolver([p[9 * r:9 * r + 9] for r in range(9)], **kw)
    elif kind == 'nonogram':
        it = apps.mod('nonogram').NonogramSolver({'rows': p[0], 'columns': p[1]}, **kw)
    elif kind == 'cryptarithm':
        it = apps.mod('cryptarithm').CryptarithmSolver(p, **kw)
    elif kind == 'graph_labeling':
        import networkx
        g = networkx.Graph()
        g.add_nodes_from(p[0])
        g.add_edges_from(p[1])
        it = apps.mod('graph_labeling').GraphLabelingSolver(g, p[2], **kw)
    elif kind == 'queens':
        it = apps.mod('tool.queens').QueensSolver(p, **kw)
    elif kind == 'map':
        it = apps.mod('tool.ascii_map_coloring').AsciiMapColoringSolver('\n'.join(p[0]), p[1], **kw)
    elif kind == 'riddle':
        it = apps.mod('tool.einstein_riddle').EinsteinRiddleSolver(**kw)
    elif kind == 'knapsack':
        r = apps.mod('knapsack').KnapsackOptimizer(p[0], p[1], p[2])()
        return [repr(r.is_optimal), frozen(r.solution), frozen(r.value), frozen(r.weights)]
    return [frozen(x) for x in itertools.islice(iter(it), CAP)]


def seeded(job, call, *args, **kw):
    """Solve with the random module in a state of the job's; only the RANDOM policy may draw from it."""
    random.seed(job['seed'])
    before = random.getstate()
    out = call(job, *args, **kw)
    if 'RANDOM' not in (job.get('policy'), job.get('cfg', [None])[0]) and random.getstate() != before:
        raise RuntimeError('a solve without the RANDOM policy draws from the random module')
    return out


def run(job):
    if 'app' in job:
        return [seeded(job, app_job), seeded(job, app_job)]
    first, b, solver = seeded(job, model_job)
    return [first, seeded(job, model_job)[0], seeded(job, model_job, b, solver)[0],
            seeded(job, model_job, solver=shared_solver(job['cfg']))[0]]


def main():
    verif = sys.argv[1]
    sys.path.insert(0, os.path.join(os.environ.get('VMON_REPO', '/repo'), 'src'))
    sys.path.insert(0, verif)
    logging.disable(logging.CRITICAL)
    jobs = json.load(sys.stdin)
    real, sys.stdout = sys.stdout, open(os.devnull, 'w')
    out = []
    for job in jobs:
        try:
            out.append(run(job))
        except Exception as exc:      # compared like anything else
            out.append(['exception', type(exc).__name__, str(exc)])
    json.dump(out, real)
    real.flush()


if __name__ == '__main__':
    main()
