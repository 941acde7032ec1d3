"""python run.py PROPERTY [--tier quick|thorough] [--replay F] [--only W]"""
import os
import sys
import argparse
import importlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vmon import core  # noqa: E402


def run():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                   choices=('quick', 'thorough'))
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--replay')
    p.add_argument('--only', nargs='*')
    p.add_argument('--jobs', type=int)
    a = p.parse_args()
    tier, seed = a.tier, a.seed
    if a.replay:
        import json
        r = json.load(open(a.replay))
        tier, seed = r['tier'], r['seed']
    core.setup_path()
    try:
        mod = importlib.import_module('vmon.checks.' + a.property.lower())
    except Exception as e:
        # The code under test cannot be imported: nothing was decided
        fr = core.frames_in_repo(e.__traceback__)
        import traceback
        traceback.print_exc()
        print('cannot load the check', 'because of /repo' if fr else '')
        return 2
    return core.main(mod, tier, seed, a.replay, a.only, a.jobs)


if __name__ == '__main__':
    code = run()
    sys.stdout.flush()
    os._exit(code)
