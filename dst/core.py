"""Core of the deterministic simulator: scenarios, outcomes, violations, seeds.

A *scenario* is a JSON-able dict that fixes every input, fault and scheduling decision of one run.
``Check.gen`` draws it from a seeded PRNG, ``Check.execute`` is a pure function of it (and of the code
under test), so a scenario file *is* the replay.
"""
import collections
import hashlib
import io
import json
import os
import random
import signal
import sys
import traceback


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = str(detail)


class Injected(Exception):
    """Base of the exceptions that the simulator throws into the code under test."""


class InjectedError(Injected, RuntimeError):
    pass


class BudgetExceeded(BaseException):
    """The run went past its event budget (bounded liveness)."""


class Hang(BudgetExceeded):
    """One run used over CPU_LIMIT seconds of processor time (runs take seconds): the code under test does not return."""


CPU_LIMIT = 150.0


def _hang(sig, frame):
    where = []
    while frame is not None and len(where) < 4:
        if 'tmdsimpy' in frame.f_code.co_filename:
            where.append('%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
        frame = frame.f_back
    raise Hang('no return within %d s of processor time (%s)' % (CPU_LIMIT, ' < '.join(where[:1])))


class Run:
    """What one execution leaves behind: event log digest, counters, reached states."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.stats = collections.Counter()
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.trace = []

    def log(self, *items):
        """Append to the event log. Never draws randomness and never reads a clock."""
        self.steps += 1
        s = repr(tuple(_canon(i) for i in items))
        self.h.update(s.encode())
        if len(self.trace) < 400:
            self.trace.append(s if len(s) < 400 else s[:400])

    def hit(self, name, n=1):
        self.stats[name] += n

    def state(self, *sig):
        self.states.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def digest(self):
        return self.h.hexdigest()[:24]


def _canon(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return (x.shape, hashlib.md5(np.ascontiguousarray(np.asarray(x, dtype=float)).tobytes()).hexdigest())
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (list, tuple)):
        return tuple(_canon(i) for i in x)
    return str(x)


class Check:
    pid = None
    runs_quick = 200
    runs_thorough = 4000
    rule = ''
    real = ''
    stub = ''
    assumptions = []
    needs = ()          # 'shim'

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, sc, run):
        """Runs the scenario; raises Violation."""
        raise NotImplementedError

    def shrink(self, sc):
        return iter(())

    def warmup(self):
        pass


def seed_for(pid, base, i):
    return int(hashlib.sha256(('%s/%d/%d' % (pid, base, i)).encode()).hexdigest()[:15], 16)


def run_one(check, sc):
    """-> dict(result) ; result['violation'] None or {kind, detail}; harness errors in 'error'."""
    run = Run()
    out = {'violation': None, 'error': None}
    old_stdout = sys.stdout
    sys.stdout = io.StringIO()
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        import warnings
        import numpy as np
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            check.execute(json.loads(json.dumps(sc)), run)
    except Violation as v:
        out['violation'] = {'kind': v.kind, 'detail': v.detail}
        run.log('VIOLATION', v.kind)
    except Hang as e:
        out['violation'] = {'kind': 'hang', 'detail': str(e)}
        run.log('VIOLATION', 'hang')
    except BaseException as e:   # noqa: harness failure, reported apart from violations
        if isinstance(e, KeyboardInterrupt) and not getattr(e, 'dst_injected', False):
            raise
        out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = old_stdout
    out.update(digest=run.digest(), stats=dict(run.stats), states=sorted(run.states), steps=run.steps,
               nontrivial=run.nontrivial, trace=run.trace)
    return out


def lib(fn, *a, allow=(), what='', **k):
    """Call into the code under test. Exceptions it is not allowed to raise are violations."""
    try:
        return fn(*a, **k)
    except (Violation, BudgetExceeded, Injected):
        raise
    except allow:
        raise
    except Exception as e:
        if getattr(e, 'dst_injected', False):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb][-3:]
        raise Violation('unexpected-exception',
                        '%s %s: %s at %s' % (what, type(e).__name__, str(e)[:200], ' > '.join(where)))


def make_rng(seed):
    return random.Random(seed)
