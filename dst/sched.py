"""Deterministic thread scheduler: one baton, handed over at interpreter line events inside the package under test.

Exactly one task thread runs at any time; which one, and for how many lines, is drawn from the scenario's seed, so an
interleaving is a pure function of (seed, tasks, code).
"""
import os
import random
import sys
import threading
import traceback

from .forcelib import REPO

NOSWITCH = ('/tmdsimpy/jax/nlforces/', '/tmdsimpy/jax/harmonic_utils.py')     # traced code: JAX holds per-function compile locks there


class Deadlock(RuntimeError):
    pass


class Sched:
    TOOL = 4

    def __init__(self, seed, quantum, budget=3000000):
        self.rng = random.Random(seed)
        self.quantum, self.budget = quantum, budget
        self.tasks, self.sem, self.done, self.result = [], [], [], []
        self.cur, self.left, self.steps, self.switches = None, 0, 0, 0
        self.finished = threading.Semaphore(0)
        self.prefix = os.path.join(REPO, 'tmdsimpy') + os.sep
        self.trail = []

    def add(self, fn):
        self.tasks.append(fn)
        self.sem.append(threading.Semaphore(0))
        self.done.append(False)
        self.result.append(None)

    def draw(self):
        self.left = 1 + int(self.rng.expovariate(1.0 / self.quantum))
        alive = [i for i in range(len(self.tasks)) if not self.done[i]]
        return self.rng.choice(alive) if alive else None

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix) or any(p in code.co_filename for p in NOSWITCH) \
                or code.co_name == 'Nhc':        # also called (once) while JAX traces
            return sys.monitoring.DISABLE
        me = getattr(self.tl, 'i', None)
        if me is None or me != self.cur:
            return
        self.steps += 1
        if self.steps > self.budget:       # no more switches: what is left runs one activity after the other
            return
        self.left -= 1
        if self.left > 0:
            return
        f = sys._getframe(1)
        while f is not None:       # a thread that holds a lock of JAX or of the import system is not switched away
            n = f.f_code.co_filename
            if '/jax/_src/' in n or 'importlib' in n or '/jaxlib/' in n:
                self.left = 1
                return
            f = f.f_back
        nxt = self.draw()
        if nxt != me:
            self.switches += 1
            if len(self.trail) < 200:
                self.trail.append((me, '%s:%s' % (os.path.basename(code.co_filename), code.co_name), nxt))
            self.cur = nxt
            self.sem[nxt].release()
            self.sem[me].acquire()

    def body(self, i):
        self.sem[i].acquire()
        self.tl.i = i
        try:
            import numpy as np
            with np.errstate(all='ignore'):
                self.result[i] = ('ok', self.tasks[i]())
        except BaseException as e:      # noqa: judged by the check
            self.result[i] = ('exc', e)
        self.tl.i = None
        self.done[i] = True
        nxt = self.draw()
        if nxt is None:
            self.finished.release()
        else:
            self.cur = nxt
            self.sem[nxt].release()

    def run(self):
        self.tl = threading.local()
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.tasks))]
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'dst')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.restart_events()
        m.set_events(self.TOOL, m.events.LINE)
        try:
            for t in ths:
                t.start()
            self.cur = self.draw()
            self.sem[self.cur].release()
            seen = -1
            while not self.finished.acquire(timeout=90):
                if self.steps == seen:
                    fr = sys._current_frames()
                    raise Deadlock('\n--\n'.join(''.join(traceback.format_stack(fr[t.ident])[-4:]) for t in ths if t.ident in fr))
                seen = self.steps
            for t in ths:
                t.join()
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)
        return self.result
