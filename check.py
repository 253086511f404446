#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decide one property of /repo's current tree."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
sys.dont_write_bytecode = True
import threading
from sa import build


def known_findings():
    """known: property=<id> obligation=<name> | <text>"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property='):
                head, _, text = line[len('known: property='):].partition(' | ')
                pid, _, name = head.partition(' obligation=')
                out[(pid.strip(), name.strip())] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        path = build.export()
    except build.BuildError as e:
        print('ERROR: the current tree cannot be analysed: %s' % e)
        return 2
    from sa.model import Program
    from sa.harness import Ctx
    P = Program(path, root=build.REPO.rstrip('/') + '/')
    mod = importlib.import_module('checks.' + pid.lower())
    cx = Ctx(pid, P, tier, seed)
    # whatever happens, an answer is given in time; what has not been examined is undecided
    w = threading.Thread(target=cx.guard_all, args=(mod.check,), daemon=True)
    w.start()
    w.join(660 if tier == 'quick' else 6 * 3600)
    if w.is_alive():
        cx.und('the rest', '', 'time limit')
    cx.obs = list(cx.obs)
    known = known_findings()
    bad, kn = [], []
    for o in cx.obs:
        if o.status == 'violated':
            if (pid, o.name) in known:
                kn.append(o)
            else:
                bad.append(o)
    cnt = cx.counts()
    decided = sum(cnt.get(k, 0) for k in ('proved', 'agreed', 'violated'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip() + ' Each obligation is decided on the resolved program (clang AST of the current tree), nothing is executed.',
            'obligations': len(cx.obs), 'discharged': cnt.get('proved', 0),
            'agreed_under_random_interpretation': cnt.get('agreed', 0),
            'undecided': cnt.get('undecided', 0), 'violated': cnt.get('violated', 0),
            'functions_analysed': len(cx.analysed),
            'functions': sorted({P.F[i]['q'] for i in cx.analysed if i in P.F})[:400],
            'rules': sorted({o.rule for o in cx.obs if o.rule}),
            'samples': [{'obligation': o.name, 'where': o.where, 'status': o.status} for o in cx.obs[:: max(1, len(cx.obs) // 12)]][:14],
            'undecided_obligations': [{'obligation': o.name, 'detail': o.detail} for o in cx.obs if o.status == 'undecided'][:60],
        },
        'assumptions': ['distinct reference parameters do not alias', 'no NaN, no unsigned wrap-around, exact real arithmetic',
                        'Eigen, boost, msgpack and the standard library behave as documented'],
        'violations': len(bad), 'wall_s': round(time.time() - t0, 2),
    }
    ed = os.path.join(HERE, 'evidence')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in kn:
        print('KNOWN-FINDING: property=%s %s: %s [%s]' % (pid, o.name, known[(pid, o.name)], o.where))
    print('%s: %d obligations: %s (%d functions, %.1f s)' % (pid, len(cx.obs), ', '.join('%d %s' % (v, k) for k, v in sorted(cnt.items())), len(cx.analysed), time.time() - t0))
    if bad:
        rd = os.path.join(ed, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'rerun': 'python3 check.py %s' % pid,
                       'violations': [{'obligation': o.name, 'where': o.where, 'rule': o.rule, 'detail': o.detail} for o in bad],
                       'witnesses': cx.cexes[:20]}, f, indent=1, default=str)
        for o in bad[:20]:
            print('  violated: %s\n    at %s\n    rule: %s\n    %s' % (o.name, o.where, o.rule, o.detail))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if decided == 0:
        print('ERROR: no obligation of %s could be decided on this tree' % pid)
        return 2
    return 0


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(40000)
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
