"""python -m sim.replay FILE : re-executes a replay file.  Exit 1 when the recorded violation happens again."""
import json
import os
import subprocess
import sys

from . import main as m


def main():
    path = os.path.abspath(sys.argv[1])
    with open(path) as f:
        v = json.load(f)
    if v.get('cross'):
        digests = set()
        for hs in v['hashseeds']:
            out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.replay', '--digest', v['property'],
                                  str(v['seed']), v['tier'], str(v['index'])], cwd=m.HERE, env=m.env_for(hs),
                                 capture_output=True, text=True).stdout.strip()
            digests.add(out)
        print(f'{v["cls"]} digests={sorted(digests)}')
        sys.exit(1 if len(digests) > 1 else 0)
    want = str(v.get('hashseed') or 0)
    if os.environ.get('PYTHONHASHSEED') != want:
        sys.exit(subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.replay', path], cwd=m.HERE,
                                env=m.env_for(want)).returncode)
    from . import child, worker
    mod = worker.load(v['property'])
    res = child.run_forked(mod, v['plan'])
    if os.environ.get('VP_SHOW_LOG'):
        print(res.get('log'))
    print(f"status={res['status']} class={res.get('cls')} log={res.get('log_digest')} (recorded {v['log_digest']}) "
          f"{res.get('detail')}")
    sys.exit(1 if res['status'] == 'violation' and res['cls'] == v['cls'] else (0 if res['status'] == 'ok' else 3))


def digest_main():
    _, _, prop, seed, tier, index = sys.argv
    from . import child, worker
    mod = worker.load(prop)
    print(child.run_forked(mod, worker.plan_for(mod, prop, int(seed), int(index), tier))['log_digest'])


if __name__ == '__main__':
    if sys.argv[1] == '--digest':
        digest_main()
    else:
        main()
