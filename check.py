#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--cases N] [--wall S] [--replay FILE]"""
import argparse, importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
import runner

def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a.add_argument('--cases', type=int)
    a.add_argument('--wall', type=float)
    a.add_argument('--jobs', type=int)
    a.add_argument('--replay')
    x = a.parse_args()
    prop = importlib.import_module(x.prop.lower()).PROP
    if x.replay:
        return runner.replay(prop, x.replay)
    return runner.run(prop, x.tier, x.seed, x.cases, x.wall, x.jobs)

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
