#!/usr/bin/env python3
"""run.py <property id> [options of the check program]

Builds the check from /repo's working tree and runs it with VERIF_SEED and VERIF_TIER.
run.py --setup builds the library and every check once.
run.py --replay <file> runs one stored case again."""
import os, sys, glob, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import build

V = build.VERIF


def program(pid):
    m = glob.glob(os.path.join(V, 'harness', pid.lower() + '_*.cpp'))
    if len(m) != 1:
        raise SystemExit('no check program for ' + pid)
    return os.path.basename(m[0])[:-4]


def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        build.build_lib('asan')
        from concurrent.futures import ThreadPoolExecutor
        ids = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(V, 'harness', 'c[0-9][0-9]_*.cpp')))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(build.build_check, ids))
        return 0
    if a[:1] == ['--replay']:
        pid = re.search(r'C\d\d', os.path.basename(a[1])).group(0)
        exe = build.build_check(program(pid))
        os.execv(exe, [exe, '--replay', a[1], '--known', os.path.join(V, 'known_findings.txt')])
    pid = a[0]
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    exe = build.build_check(program(pid))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    cap = '600' if tier == 'quick' else '3000'
    os.execv(exe, [exe, '--seed', seed, '--tier', tier, '--out', os.path.join(V, 'evidence', pid + '.json'),
                   '--replay-dir', os.path.join(V, 'replays'), '--known', os.path.join(V, 'known_findings.txt'), '--cap', cap] + a[1:])


if __name__ == '__main__':
    sys.exit(main())
