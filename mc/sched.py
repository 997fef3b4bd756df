"""Controlled scheduler: runs callables in real threads, one at a time, and switches between them only
at chosen points (the n-th line executed by a thread inside the code under test).

A schedule is a list of segments (thread, points): the thread runs for that many points; after the last
segment the unfinished threads run to the end in order.  A thread which gives no sign of life (it waits for a
lock held by a suspended one) loses the turn after STUCK seconds.
"""
from __future__ import annotations
import sys, threading, time

STUCK = 0.6


class Run:
    def __init__(self, fns, segments, inside, opcodes=False, record=False):
        self.fns, self.segs = fns, list(segments)
        self.inside, self.opcodes = inside, opcodes
        self.n = len(fns)
        self.points = [0] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.cv = threading.Condition()
        self.turn = None
        self.left = None
        self.beat = time.monotonic()
        self.switches = 0
        self.stuck = 0
        self.where = [[] for _ in fns] if record else None

    def _next(self):
        """choose who runs now (called with the lock held)"""
        while self.segs:
            t, k = self.segs.pop(0)
            if not self.done[t] and k > 0:
                self.turn, self.left = t, k
                break
        else:
            for t in range(self.n):
                if not self.done[t]:
                    self.turn, self.left = t, None
                    break
            else:
                self.turn = None
        self.switches += 1
        self.beat = time.monotonic()
        self.cv.notify_all()

    def _wait(self, me):
        while self.turn != me:
            if not self.cv.wait(0.2) and self.turn is not None and time.monotonic() - self.beat > STUCK:
                self.stuck += 1
                self.turn, self.left = me, None
                self.beat = time.monotonic()
                self.cv.notify_all()

    def point(self, me):
        self.points[me] += 1
        if self.turn == me and self.left is None:
            self.beat = time.monotonic() if not self.points[me] & 63 else self.beat
            return
        with self.cv:
            self.beat = time.monotonic()
            if self.turn == me and self.left is not None:
                self.left -= 1
                if self.left > 0:
                    return
                self._next()
            self._wait(me)

    def _body(self, me):
        with self.cv:
            self._wait(me)
        _active[threading.get_ident()] = (self, me)
        try:
            r = ("ok", self.fns[me]())
        except BaseException as e:
            r = ("exc", e)
        finally:
            _active.pop(threading.get_ident(), None)
        with self.cv:
            self.results[me] = r
            self.done[me] = True
            if self.turn == me:
                self._next()

    def run(self):
        _install(self.inside, self.opcodes)
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        with self.cv:
            self._next()
        for t in ts:
            t.join(20)
            if t.is_alive():
                raise RuntimeError("thread does not finish: points %r" % (self.points,))
        return self.results


# ---------------------------------------------------------------- scheduling points: sys.monitoring events
_active = {}
_installed = [None]
_mon = sys.monitoring
TOOL = 4


def _install(inside, opcodes):
    if _installed[0] == (inside, opcodes):
        return
    if _installed[0] is None:
        _mon.use_tool_id(TOOL, "mc-sched")
    ev = _mon.events
    ident = threading.get_ident

    def at(code, where):
        if not inside(code.co_filename):
            return _mon.DISABLE
        a = _active.get(ident())
        if a is not None:
            run, me = a
            if run.where is not None:
                run.where[me].append((code.co_filename, where))
            run.point(me)

    _mon.set_events(TOOL, 0)
    _mon.register_callback(TOOL, ev.LINE, None if opcodes else at)
    _mon.register_callback(TOOL, ev.INSTRUCTION, at if opcodes else None)
    _mon.restart_events()
    _mon.set_events(TOOL, ev.INSTRUCTION if opcodes else ev.LINE)
    _installed[0] = (inside, opcodes)
