"""Framework: sub-checks (generator + oracle), parallel execution, shrinking, evidence, replay.

A sub-check is a Hypothesis strategy that produces a JSON-able case plus a body that runs the
code under test on that case and compares with an explicit oracle.  Every random choice is made
by Hypothesis (a dense case is a pure function of an integer that Hypothesis drew).
"""
import hashlib
import io
import json
import logging
import math
import os
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(AssertionError):
    """The code under test breaks the property."""


class HarnessError(Exception):
    """The machinery cannot judge (neither held nor broken)."""


class _Context:
    """Handed to every body: classification of the case."""

    def __init__(self):
        self.is_nontrivial = True
        self.labels = []

    def nontrivial(self, cond):
        self.is_nontrivial = bool(cond)

    def label(self, s):
        self.labels.append(str(s))


class Sub:
    def __init__(self, name, strategy, body, quick, thorough=None, rule='', examples=(),
                 minimise=None, timeout=None, known=None):
        self.name = name
        self.strategy = strategy        # callable returning a Hypothesis strategy
        self.body = body                # body(case, ctx)
        self.quick = quick              # cases in the quick tier
        self.thorough = thorough if thorough is not None else quick * 10
        self.rule = rule
        self.examples = examples        # callable or list: enumerated explicit cases
        self.minimise = minimise
        self.timeout = timeout


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted(jsonable(v) for v in o)
    if isinstance(o, bool) or o is None or isinstance(o, (str, int, float)):
        return o
    if isinstance(o, complex):
        return {'re': o.real, 'im': o.imag}
    if hasattr(o, 'item'):
        return jsonable(o.item())
    return repr(o)


def _frames(e):
    files = []
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for f in traceback.extract_tb(e.__traceback__):
            files.append(f.filename)
        e = e.__cause__ or e.__context__
    return files


def in_code_under_test(e, tree):
    for f in _frames(e):
        f2 = os.path.realpath(f)
        if '/refwilson/' in f or '/refwilson/' in f2:
            continue
        if f.startswith(tree) or '/wilson_overlay_' in f or '/repo/wilson/' in f2:
            return True
    return False


def guarded(body, tree):
    """Turn exceptions of the body into Violation / HarnessError."""
    import hypothesis.errors as he

    def run(case, ctx):
        try:
            body(case, ctx)
        except (Violation, HarnessError):
            raise
        except he.HypothesisException:
            raise
        except RecursionError as e:
            raise Violation('unexpected RecursionError: %s' % _short(e)) from e
        except (ImportError, MemoryError, KeyboardInterrupt) as e:
            raise HarnessError(traceback.format_exc()) from e
        except SystemExit as e:
            raise Violation('unexpected SystemExit(%r)' % (e.code,)) from e
        except Exception as e:
            if in_code_under_test(e, tree):
                raise Violation('unexpected exception %s' % _short(e)) from e
            if any('/refwilson/' in f for f in _frames(e)):
                raise HarnessError('reference model failed:\n' + traceback.format_exc()) from e
            if isinstance(e, (AttributeError, NameError, OSError)):
                raise HarnessError(traceback.format_exc()) from e
            raise Violation('unusable result: %s' % _short(e)) from e
    return run


def _short(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
    return '%s: %s [%s]' % (type(e).__name__, str(e)[:300], loc)


def sub_seed(seed, name):
    return (int(seed) * 1000003 + zlib.crc32(name.encode())) % (2**32)


def run_sub(sub, tier, seed, tree):
    """Run one sub-check in this process; return a picklable result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import given
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, 'MAX_SHRINKING_SECONDS'):
        eng.MAX_SHRINKING_SECONDS = 40
    t0 = time.time()
    n = sub.quick if tier == 'quick' else sub.thorough
    st = dict(evaluations=0, nontrivial=set(), distinct=set(), labels={}, samples=[], last=None,
              failing=None, enumerated=0)
    body = guarded(sub.body, tree)

    def account(case, ctx, counted=True):
        h = hashlib.md5(json.dumps(jsonable(case), sort_keys=True, default=repr).encode()).hexdigest()
        st['evaluations'] += 1
        st['distinct'].add(h)
        if ctx.is_nontrivial:
            st['nontrivial'].add(h)
            if len(st['samples']) < 3:
                st['samples'].append(_clip(jsonable(case)))
        for l in ctx.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1

    def one(case):
        ctx = _Context()
        try:
            body(case, ctx)
        except Violation as e:
            st['failing'] = (jsonable(case), str(e))
            raise
        finally:
            account(case, ctx)

    res = dict(sub=sub.name, status='ok', message='', case=None)
    try:
        examples = sub.examples() if callable(sub.examples) else sub.examples
        if isinstance(examples, dict):
            examples = examples[tier]
        for case in examples:
            st['enumerated'] += 1
            one(case)
        if n > 0 and sub.strategy is not None:
            strat = sub.strategy()
            phases = [Phase.generate, Phase.shrink]

            @hypothesis.seed(sub_seed(seed, sub.name))
            @settings(max_examples=n, deadline=None, database=None, phases=phases,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(strat)
            def test(case):
                one(case)
            test()
    except Violation as e:
        case, msg = st['failing']
        res.update(status='violation', message=msg, case=case)
    except HarnessError as e:
        res.update(status='error', message=str(e))
    except BaseException as e:
        # Hypothesis: Flaky etc. A failure that depends on the calls before it is a failure
        # of the code under test (everything the harness does is deterministic).
        name = type(e).__name__
        if st['failing'] is not None and ('Flaky' in name or 'Flaky' in repr(e)):
            case, msg = st['failing']
            res.update(status='violation', message='(depends on earlier calls) ' + msg, case=case,
                       history=True)
        else:
            res.update(status='error', message='%s: %s\n%s' % (name, e, traceback.format_exc()))
    if res['status'] == 'violation' and sub.minimise and not res.get('history'):
        try:
            case, msg = ddmin(sub, body, res['case'], res['message'])
            res.update(case=case, message=msg)
        except Exception:
            pass
    res.update(evaluations=st['evaluations'], nontrivial=sorted(st['nontrivial']),
               labels=st['labels'], samples=st['samples'], enumerated=st['enumerated'],
               distinct=len(st['distinct']), wall=time.time() - t0, rule=sub.rule)
    return res


def _clip(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + '...'


def ddmin(sub, body, case, msg, seconds=30):
    """Shrink the coefficient sets of a failing case by deleting entries (delta debugging)."""
    t0 = time.time()
    case = json.loads(json.dumps(case))
    case = sub.minimise(case)       # makes dense sets explicit

    def fails(c):
        try:
            body(c, _Context())
        except Violation as e:
            return str(e)
        except Exception:
            return None
        return None

    m = fails(case)
    if m is None:
        raise HarnessError('materialised case does not fail')
    msg = m

    def dicts(c):
        for k, v in c.items():
            if isinstance(v, dict) and v.get('kind') == 'sparse':
                yield v
    for d in list(dicts(case)):
        keys = sorted(d['vals'])
        step = max(1, len(keys) // 2)
        while step >= 1 and time.time() - t0 < seconds:
            i = 0
            removed = False
            while i < len(keys) and time.time() - t0 < seconds:
                cut = keys[i:i + step]
                saved = {k: d['vals'].pop(k) for k in cut}
                m = fails(case)
                if m is None:
                    d['vals'].update(saved)
                    i += step
                else:
                    msg = m
                    keys = keys[:i] + keys[i + step:]
                    removed = True
            if step == 1 and not removed:
                break
            step = max(1, step // 2) if step > 1 else (1 if removed else 0)
    return case, msg
