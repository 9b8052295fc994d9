"""Stateless exploration of real threads under a controlled scheduler.

Every thread runs the real code with a trace function.  Each executed source
line of the package (optionally each bytecode instruction) is a scheduling
point; exactly one thread runs at a time and the baton moves only at the
scheduling points a schedule names, or when a thread ends.  A schedule is
``(first thread, [k1, k2, ...])``: the running thread is preempted after k1
scheduling points of its own, the next one after k2 more points, and so on.
All schedules up to a preemption bound are enumerated by the callers.

If the running thread makes no progress because it waits for a lock held by a
preempted thread, all threads are released: the execution then is some other
legal execution, never a false one.
"""
from __future__ import annotations
import os
import sys
import threading
from mc.core import REPO

PKG = os.path.join(REPO, 'jsonclasses') + os.sep
STALL = 0.15


class Run:
    def __init__(self, bodies, first=0, switches=(), opcodes=(), only=None,
                 record=False):
        self.bodies = bodies
        self.switches = list(switches)
        self.opcodes = opcodes
        self.only = only
        self.baton = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.error = [None] * len(bodies)
        self.steps = [0] * len(bodies)
        self.first = first
        self.since = 0
        self.free = False
        self.current = first
        self.files = {}
        self.record = record
        self.keys = {}
        self.points = []
        self.alive = []

    def note(self, frame):
        """Remember the first execution of every line per receiver."""
        me = frame.f_locals.get('self', frame.f_locals.get('types'))
        key = (frame.f_code.co_filename, frame.f_lineno, frame.f_lasti
               if frame.f_trace_opcodes else 0, id(me))
        if key not in self.keys:
            self.keys[key] = True
            self.alive.append(me)           # ids stay unique
            self.points.append((self.steps[0] + 1, self.wanted(key[0]) and
                                os.path.basename(key[0])))

    def wanted(self, filename):
        w = self.files.get(filename)
        if w is None:
            path = os.path.abspath(filename)
            w = path.startswith(PKG)
            if w and self.only:
                w = os.path.basename(path) in self.only
            self.files[filename] = w
        return w

    def tracer(self, tid):
        def local(frame, event, arg):
            if event == ('opcode' if frame.f_trace_opcodes else 'line'):
                if self.record:
                    self.note(frame)
                self.point(tid)
            return local

        def call(frame, event, arg):
            if not self.switches and not self.record:
                return None                 # nothing left to decide
            name = frame.f_code.co_filename
            if not self.wanted(name):
                return None
            if os.path.basename(name) in self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return call

    def point(self, tid):
        if self.free:
            return
        self.steps[tid] += 1
        self.since += 1
        if self.switches and self.since >= self.switches[0]:
            nxt = self.other(tid)
            if nxt is None:
                return
            self.switches.pop(0)
            self.since = 0
            self.switch(tid, nxt)

    def other(self, tid):
        n = len(self.bodies)
        for i in range(1, n):
            t = (tid + i) % n
            if not self.done[t]:
                return t
        return None

    def switch(self, tid, nxt):
        self.current = nxt
        self.baton[nxt].release()
        while not self.baton[tid].acquire(timeout=STALL):
            if self.free:
                return
            now = sum(self.steps)
            if now == getattr(self, 'seen', None):
                self.free = True            # somebody waits for our lock
                for t in range(len(self.bodies)):
                    if t != tid:
                        self.baton[t].release()
                return
            self.seen = now

    def thread(self, tid):
        self.baton[tid].acquire()
        try:
            sys.settrace(self.tracer(tid))
            try:
                self.bodies[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:          # noqa: reported by the caller
            self.error[tid] = e
        self.done[tid] = True
        nxt = self.other(tid)
        if nxt is not None and not self.free:
            self.since = 0
            self.current = nxt
            self.baton[nxt].release()

    def go(self, limit=25):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True)
              for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.baton[self.first].release()
        for t in ts:
            t.join(limit)
            if t.is_alive():
                self.free = True
                for b in self.baton:
                    b.release()
                raise RuntimeError('a thread does not terminate')
        return self
