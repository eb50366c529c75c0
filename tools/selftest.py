"""setup_cmd: nothing to build; checks that the machinery loads and that every property has exactly one check."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vmon import core, runner  # noqa: E402
runner.load_checks()
want = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
claimed = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
assert sorted(core.REGISTRY) == sorted(want) == sorted(claimed), set(core.REGISTRY) ^ set(want)
print('{} checks'.format(len(want)))
