"""check.py Cxx | check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import engine  # noqa: E402


def main(argv):
    if argv[:1] == ['--replay']:
        return engine.replay(argv[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return engine.run(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
