"""Controlled scheduler: runs real threads one at a time and decides, at every scheduling point of the
code under test, which thread goes on.  A scheduling point is the start of a statement (or every
bytecode instruction, or every call and return) in a file of the package; the interpreter's tracing facility stops the thread
there.  A run is determined by its schedule, a list of segments [thread, points]: the thread runs
`points` scheduling points and is preempted; when the list is used up the remaining threads run to
completion in `order`.

Locks that the package might use are replaced by cooperative ones, so that a thread that waits for a
lock gives way instead of stopping the exploration."""
import _thread
import ast
import os
import sys
import threading
import time

from mc.core import Fail, HarnessError, REPO

PKG = os.path.join(os.path.abspath(REPO), 'composipy', '')
_active = None  # the running scheduler
_raw_lock = _thread.allocate_lock


class _Coop:
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s and s.ids.get(_thread.get_ident())
        if s is None or me is None or not blocking:
            return self._real.acquire(blocking, timeout) if blocking else self._real.acquire(False)
        while not self._real.acquire(False):
            s.give_way(me)
        s.idle = 0
        return True

    def release(self):
        self._real.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __getattr__(self, name):
        return getattr(self._real, name)


def patch_locks():
    """before the package is imported; only callers inside the package get the cooperative locks"""
    lock, rlock = threading.Lock, threading.RLock

    def inside():
        return sys._getframe(2).f_code.co_filename.startswith(PKG)

    def Lock():
        return _Coop(lock()) if inside() else lock()

    def RLock():
        return _Coop(rlock()) if inside() else rlock()
    threading.Lock, threading.RLock = Lock, RLock


_starts = {}


def statements(filename):
    got = _starts.get(filename)
    if got is None:
        with open(filename) as fh:
            tree = ast.parse(fh.read())
        got = frozenset(n.lineno for n in ast.walk(tree) if isinstance(n, ast.stmt))
        _starts[filename] = got
    return got


class Stop(BaseException):
    pass


class Run:
    def __init__(self, ops, segments, order, grain='line', files=None):
        self.ops, self.grain = ops, grain
        self.files = files
        self.n = len(ops)
        self.segments = [tuple(s) for s in segments]
        self.order = list(order)
        self.gate = [_raw_lock() for _ in ops]
        for g in self.gate:
            g.acquire()
        self.over = _raw_lock()
        self.over.acquire()
        self.done = [False] * self.n
        self.out = [None] * self.n
        self.err = [None] * self.n
        self.ids = {}
        self.steps = [0] * self.n
        self.total = 0
        self.switches = 0
        self.idle = 0
        self.abort = False
        self.cur = None
        self.left = -1  # points until the next preemption; -1: no more
        self.realised = not self.segments

    # ---- decisions
    def next_segment(self):
        if self.segments:
            t, k = self.segments.pop(0)
            self.cur, self.left = t, k
            return t
        self.realised = True
        self.left = -1
        for t in self.order:
            if not self.done[t]:
                self.cur = t
                return t
        self.cur = None
        return None

    def wait(self, i):
        while True:
            self.gate[i].acquire()
            if self.abort:
                raise Stop
            if self.cur == i:
                return

    def hand(self, i, nxt):
        """thread i passes control to nxt"""
        self.switches += 1
        self.gate[nxt].release()
        self.wait(i)

    def point(self, i):
        if self.abort:
            raise Stop
        if self.cur != i:  # was stuck in a foreign lock while others ran
            self.wait(i)
        self.steps[i] += 1
        self.total += 1
        if self.left < 0:
            return
        if self.left == 0:
            nxt = self.next_segment()
            while nxt is not None and self.done[nxt]:
                self.realised = False
                nxt = self.next_segment()
            if nxt != i and nxt is not None:
                self.hand(i, nxt)
            return
        self.left -= 1

    def give_way(self, i):
        """thread i cannot go on until another one does"""
        self.idle += 1
        others = [t % self.n for t in range(i + 1, i + self.n) if not self.done[t % self.n]]
        if not others or self.idle > 50 * self.n:
            raise Fail('deadlock: a thread waits for a lock that is never released')
        self.cur = others[0]
        self.hand(i, self.cur)

    def finish(self, i):
        self.done[i] = True
        if self.left >= 0 and self.cur == i:
            self.short = True  # ended before its preemption: the same as a schedule with fewer of them
        self.idle = 0
        if all(self.done):
            self.over.release()
            return
        if self.cur == i:
            self.segments = []
            nxt = self.next_segment()
            if nxt is not None:
                self.switches += 1
                self.gate[nxt].release()

    # ---- threads
    def body(self, i):
        self.ids[_thread.get_ident()] = i
        want_op = self.grain == 'opcode'
        calls = self.grain == 'call'
        files = self.files

        def ends(frame, event, arg):
            if event == 'return':
                self.point(i)
            return ends

        def local(frame, event, arg):
            if event == ('opcode' if want_op else 'line'):
                if want_op or frame.f_lineno in statements(frame.f_code.co_filename):
                    self.point(i)
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(PKG) and (files is None or os.path.basename(name) in files):
                if calls:
                    if len(frame.f_code.co_code) <= 40 and not frame.f_code.co_cellvars:  # an accessor
                        return None
                    frame.f_trace_lines = False
                    self.point(i)
                    return ends
                if want_op:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        try:
            self.wait(i)
            sys.settrace(trace)
            try:
                self.out[i] = self.ops[i]()
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as exc:
            self.err[i] = exc
        finally:
            if not self.abort:
                self.finish(i)

    def __call__(self):
        global _active
        _active = self
        self.short = False
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        first = self.next_segment()
        self.gate[first].release()
        last, since = -1, time.monotonic()
        while not self.over.acquire(timeout=0.25):
            if self.total != last:
                last, since = self.total, time.monotonic()
                continue
            waited = time.monotonic() - since
            stuck = self.cur
            others = [t for t in self.order if t != stuck and not self.done[t]]
            if waited > 60 or (waited > 20 and not others):
                self.abort = True
                for g in self.gate:
                    try:
                        g.release()
                    except RuntimeError:
                        pass
                _active = None
                raise Fail('no progress: the threads block one another')
            if others and waited > 2:  # blocked in something the scheduler does not control
                self.cur = others[0]
                self.gate[others[0]].release()
        for t in ts:
            t.join()
        _active = None
        return self
