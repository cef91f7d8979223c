"""Runner for properties made of facets.

A facet is a generator of plain JSON cases plus a check that judges one case against an oracle.
Everything the check does is a function of the case, so that a replay file is just the case.
"""
from vf import env
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
from hypothesis import strategies as st  # noqa: F401
from hypothesis.errors import HypothesisException

mono = time.monotonic


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness could not judge the case."""


class KnownFinding(Exception):
    """Not used for control flow: see Facet check's ``known`` argument."""


class Hang(BaseException):
    pass


def expect(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


def expect_eq(actual, wanted, what):
    if actual != wanted:
        raise Violation('%s: got %r, expected %r' % (what, actual, wanted))


def expect_raises(excs, what, func, *args, **kw):
    try:
        res = func(*args, **kw)
    except excs as e:
        return e
    raise Violation('%s: expected %s, got %r' % (what, excs, res))


class Facet(object):
    def __init__(self, name, strategy, check, quick=800, thorough=None, rule='', cpu=30):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule
        self.cpu = cpu


class Ctx(object):
    """Collects what one case covered."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.known = []

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, separators=(',', ':'))


def run_case(facet, case):
    """Run one case; returns (ctx, failure message or None)."""
    ctx = Ctx()
    env.clock.reset()

    def on_alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, facet.cpu)
    try:
        try:
            random.seed(hashlib.sha1(canon(case).encode()).digest())
            facet.check(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            env.clock.reset()
    except Violation as e:
        return ctx, str(e)
    except HarnessError:
        raise
    except Hang:
        return ctx, 'no result after %d s of CPU time\n%s' % (facet.cpu, traceback.format_exc())
    except HypothesisException:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        return ctx, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    return ctx, None


class _Fail(Exception):
    pass


def run_facet(facet, n, seed, shrink_wall=60):
    """Search for a failing case. Returns a dict of what happened."""
    out = {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'failure': None, 'known': []}
    best = [None, None, None]    # length, case, message
    started = [None]
    search_over = [False]

    def body(case):
        if started[0] is not None and mono() - started[0] > shrink_wall:
            return
        text = canon(case)
        case = json.loads(text)
        ctx, failure = run_case(facet, case)
        if started[0] is None:
            out['evaluations'] += 1
            if ctx.nontrivial:
                h = hashlib.sha1(text.encode()).hexdigest()[:14]
                if h not in out['nontrivial']:
                    out['nontrivial'].add(h)
                    if len(out['samples']) < 2 and len(text) < 3000 and len(out['nontrivial']) in (3, 40):
                        out['samples'].append({'facet': facet.name, 'case': case, 'labels': sorted(set(ctx.labels))})
            for label in set(ctx.labels):
                out['labels'][label] = out['labels'].get(label, 0) + 1
            for k in ctx.known:
                if k not in out['known']:
                    out['known'].append(k)
        if failure is not None:
            if started[0] is None:
                started[0] = mono()
            if best[0] is None or (len(text), text) < (best[0], canon(best[1])):
                best[:] = [len(text), case, failure]
            raise _Fail()

    test = given(facet.strategy)(body)
    test = settings(database=None, deadline=None, max_examples=max(1, n), print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.target, Phase.shrink))(test)
    test = hyp_seed(seed)(test)
    try:
        test()
    except _Fail:
        pass
    except HypothesisException:
        if best[0] is None:
            raise
    except BaseException as e:
        if best[0] is None or isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
    if best[0] is not None:
        # the case found last may be flaky: look at it again before reporting
        reproduced = None
        for _ in range(5):
            _, failure = run_case(facet, best[1])
            if failure is not None:
                reproduced = failure
                break
        out['failure'] = {'facet': facet.name, 'case': best[1], 'message': reproduced or best[2],
                          'reproduced': reproduced is not None}
    out['nontrivial'] = sorted(out['nontrivial'])
    return out
