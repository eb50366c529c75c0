"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'E': 'runtime monitor: observed values and histories of real expressions against an independent evaluator',
 'M': 'runtime monitor: model-level observations (declarations, domains, solutions) against a reference model',
 'C': 'runtime monitor: every verdict of real constraints over binding histories against the reference relation',
 'S': 'runtime monitor: recorded solution streams, probe events and virtual clock readings against an exhaustive reference model',
 'O': 'runtime monitor: recorded optimization histories (yields, flags, clock) against enumeration',
 'A': 'runtime monitor: outputs of the real front end decoded and judged by an independent solver of the same puzzle',
 'T': 'runtime monitor: printed output of real command line runs parsed back and judged against independent solvers',
 'U': 'runtime monitor: call histories under a virtual clock / identity checks against a reference state machine',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run.py {} --tier quick'.format(i),
        'thorough_cmd': 'python3 run.py {} --tier thorough'.format(i),
        'evidence_file': 'evidence/{}.json'.format(i),
        'technique': TECH[i[0]],
        'level': 'exploration',
        'level_note': 'Held on the executions observed (generated from VERIF_SEED, counts in the evidence file), nothing beyond; '
                      'trusts the reference model in vmon/ and checks/, the CPython interpreter and, for A06 and A10, networkx and termcolor.',
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/selftest.py',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: everything is observed through the public interface. See DESIGN.md.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
