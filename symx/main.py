import argparse
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(here, 'symx')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(8000)


def main():
    from symx import run
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.setup:
        from symx import libs
        n, m = libs.validate(), libs.validate_rotation()
        print('contracts validated against the installed libraries: %d comparisons' % (n + m))
        return 0
    if a.replay:
        return run.replay_file(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run.check(a.property, a.tier, seed, a.only, a.v, a.jobs)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
