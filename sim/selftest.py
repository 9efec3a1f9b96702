"""setup_cmd: the simulator imports, the code under test imports, and one run repeats exactly."""
import json
import os
import sys

from . import child, worker


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'MANIFEST.json')) as f:
        ids = [c['property'] for c in json.load(f)['checks']]
    mod = worker.load(ids[0])
    plan = worker.plan_for(mod, ids[0], 1, 3, 'quick')
    a, b = child.run_forked(mod, plan), child.run_forked(mod, plan)
    if a.get('log_digest') != b.get('log_digest'):
        print('the simulator is not deterministic')
        sys.exit(3)
    print('simulator ready:', ' '.join(ids))


main()
