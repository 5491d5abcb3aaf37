#!/opt/venv/bin/python
"""run_check.py PID [--tier quick|thorough] [--sub NAME] [--replay FILE] [--seed N]"""
import os
import sys

# environment of the interpreter must be fixed before numpy is imported
_ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}
if any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

import argparse
import importlib
import json
import pickle
import signal
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, VERIF)
sys.path.append(os.path.join(VERIF, 'reference'))
import harness
import overlay

NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def listed(pid, line):
    """is a known finding of a check module listed in the committed file?"""
    top = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(top, 'known_findings.txt')) as f:
        return any(x.startswith('known: property=%s %s' % (pid, line)) for x in f)


def write_replay(pid, res, seed, tier):
    d = os.path.join(VERIF, 'replays', pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % res['sub'])
    with open(p, 'w') as f:
        json.dump({'property': pid, 'sub': res['sub'], 'seed': seed, 'tier': tier,
                   'message': res['message'], 'case': res['case'],
                   'history': res.get('history', False),
                   'replay_with': './run_check.py %s --replay %s' % (pid, p)}, f, indent=1)
    return p


def spawn(sub, tier, seed, tree, logdir):
    out = os.path.join(logdir, sub.name + '.pkl')
    log = os.path.join(logdir, sub.name + '.log')
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1); os.dup2(fd, 2)
            work = os.path.join(logdir, 'cwd_' + sub.name)
            os.mkdir(work); os.chdir(work)
            os.environ['TMPDIR'] = work
            tempfile.tempdir = work
            res = harness.run_sub(sub, tier, seed, tree)
            with open(out + '.tmp', 'wb') as f:
                pickle.dump(res, f)
            os.rename(out + '.tmp', out)
        except BaseException:
            traceback.print_exc()
            code = 3
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(code)
    return pid, out, log


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--sub')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    pid = args.pid
    os.environ['VERIF_TIER'] = args.tier
    t0 = time.time()
    tree = overlay.activate()
    mod = importlib.import_module('checks.' + pid.lower())
    subs = [s for s in mod.SUBS if not args.sub or s.name in args.sub.split(',')]
    if args.list:
        for s in subs:
            print(s.name, s.quick, s.thorough)
        return 0
    os.environ.pop('VERIF_SUBPROCESS', None)
    try:
        if getattr(mod, 'NEEDS_WILSON', True):
            import logging
            logging.getLogger().setLevel(logging.ERROR)
            import warnings
            warnings.simplefilter('ignore')
            import wilson
            if getattr(mod, 'NEEDS_REF', False):
                import refwilson
    except (ImportError, SyntaxError, MemoryError, OSError):
        traceback.print_exc()
        return 2
    except Exception as e:
        if not harness.in_code_under_test(e, tree):
            traceback.print_exc()
            return 2
        res = dict(sub='import', message='importing the library fails: ' + harness._short(e), case={})
        p = write_replay(pid, res, args.seed, args.tier)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('   ', res['message'])
        evidence(pid, args, [dict(res, status='violation', evaluations=1, nontrivial=['0'], samples=[{}],
                                  labels={}, enumerated=0, distinct=1, wall=0, rule='import')], t0, mod)
        return 1

    if args.replay:
        r = json.load(open(args.replay))
        sub = [s for s in mod.SUBS if s.name == r['sub']][0]
        try:
            harness.guarded(sub.body, tree)(r['case'], harness._Context())
        except harness.Violation as e:
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            print('   ', e)
            return 1
        print('replay: property held on this case')
        return 0

    # known findings (committed file): demonstrated, reported, never a violation
    for line in getattr(mod, 'known_findings', lambda: [])():
        if not listed(pid, line):
            print('VIOLATION property=%s replay=%s' % (pid, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.txt')))
            print('    not in known_findings.txt: %s' % line)
            return 1
        print('KNOWN-FINDING: property=%s %s' % (pid, line))

    logdir = tempfile.mkdtemp(prefix='wverif_')
    results, running, queue = [], {}, sorted(subs, key=lambda s: -getattr(s, 'cost', 1))
    limit = 800 if args.tier == 'quick' else float(os.environ.get('VERIF_LIMIT', 6 * 3600))
    try:
        while queue or running:
            while queue and len(running) < NPROC:
                s = queue.pop(0)
                p, out, log = spawn(s, args.tier, args.seed, tree, logdir)
                running[p] = (s, out, log, time.time())
            p, status = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                if time.time() - t0 > limit:
                    for q in running:
                        os.kill(q, signal.SIGKILL)
                    print('time limit: inconclusive', [v[0].name for v in running.values()])
                    return 2
                time.sleep(0.02)
                continue
            if p not in running:
                continue
            s, out, log, ts = running.pop(p)
            if os.path.exists(out):
                results.append(pickle.load(open(out, 'rb')))
            else:
                tail = open(log, errors='replace').read()[-3000:]
                results.append(dict(sub=s.name, status='error', message='worker died (status %s)\n%s' % (status, tail),
                                    case=None, evaluations=0, nontrivial=[], labels={}, samples=[],
                                    enumerated=0, distinct=0, wall=time.time() - ts, rule=s.rule))
    finally:
        import shutil
        shutil.rmtree(logdir, ignore_errors=True)
    results.sort(key=lambda r: r['sub'])
    bad = [r for r in results if r['status'] == 'violation']
    err = [r for r in results if r['status'] == 'error']
    if not args.sub:
        evidence(pid, args, results, t0, mod)
    for r in results:
        if args.v or r['status'] != 'ok':
            print('%-40s %-9s evals=%d nontrivial=%d %.1fs %s' % (
                r['sub'], r['status'], r['evaluations'], len(r['nontrivial']), r['wall'],
                json.dumps(r['labels']) if args.v else ''))
        if r['status'] != 'ok':
            print('   ', r['message'][:1500].replace('\n', '\n    '))
    for r in bad:
        p = write_replay(pid, r, args.seed, args.tier)
        print('VIOLATION property=%s replay=%s' % (pid, p))
    tot = sum(r['evaluations'] for r in results)
    print('%s: %d sub-checks, %d cases, %d non-trivial, %.1f s, %s' % (
        pid, len(results), tot, sum(len(r['nontrivial']) for r in results), time.time() - t0,
        'VIOLATED' if bad else 'ERROR' if err else 'held'))
    if bad:
        return 1
    return 2 if err else 0


def evidence(pid, args, results, t0, mod):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples = []
    for r in results:
        for c in r['samples'][:1]:
            samples.append({'sub': r['sub'], 'case': c})
    rule = '; '.join('[%s] %s' % (r['sub'], r['rule']) for r in results if r['rule'])
    ev = dict(property=pid, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick',
              seed=args.seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in results),
                            distinct_nontrivial=sum(len(r['nontrivial']) for r in results),
                            rule='Cases are drawn by Hypothesis per sub-check, seeded by VERIF_SEED; distinct = '
                                 'different canonical JSON of the case. Non-trivial per sub-check: ' + rule,
                            samples=samples,
                            per_sub=[dict(sub=r['sub'], evaluations=r['evaluations'], distinct=r['distinct'],
                                          nontrivial=len(r['nontrivial']), enumerated=r['enumerated'],
                                          classes=r['labels'], wall_s=round(r['wall'], 2), status=r['status'])
                                     for r in results]),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2),
              violations=sum(r['status'] == 'violation' for r in results))
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
