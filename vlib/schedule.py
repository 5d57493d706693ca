"""Runs functions in threads, one at a time, by a given schedule.

A thread can be stopped before any line of the code under test (the generated
parser excepted).  The schedule is a list of ``[kind, count, choice]``: the
running thread goes on for ``count`` more lines (kind "line"), or for ``count``
more lines which it has not been at before (kind "new"), and then one of the
other threads, picked by ``choice``, goes on instead.  After the end of the
schedule every thread runs to its end.  The same schedule gives the same
interleaving again.
"""

from __future__ import annotations

import os
import sys
import threading
import time

from .env import REPO

PREFIX = os.path.join(REPO, "pyudunits2") + os.sep
GENERATED = os.path.join(PREFIX, "_grammar", "parser") + os.sep
STALL = 1.0  # seconds without a line: the thread waits for one which is stopped
LIMIT = 120.0


class Stuck(Exception):
    pass


class Scheduled:
    def __init__(self, functions, schedule):
        self.functions = functions
        self.schedule = list(schedule)
        self.at = 0
        self.left = self.schedule[0][1] if schedule else None
        self.free = not schedule
        self.current = 0
        self.done = [False] * len(functions)
        self.results = [None] * len(functions)
        self.seen = [set() for _ in functions]
        self.gates = [threading.Semaphore(0) for _ in functions]
        self.lines = 0
        self.switches = 0
        self.stalled = False
        self.over = threading.Event()

    # -- in the threads

    def tracer(self, me):
        seen = self.seen[me]

        def local(frame, event, arg):
            if event == "line" and not self.free:
                key = (frame.f_code, frame.f_lineno)
                new = key not in seen
                if new:
                    seen.add(key)
                self.line(me, new)
            return local

        def on_call(frame, event, arg):
            name = frame.f_code.co_filename
            if self.free or not name.startswith(PREFIX) or name.startswith(GENERATED):
                return None
            return local

        return on_call

    def line(self, me, new):
        self.lines += 1
        kind, _, choice = self.schedule[self.at]
        if kind == "new" and not new:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.next_entry()
        others = [i for i, d in enumerate(self.done) if not d and i != me]
        if others:
            self.switches += 1
            self.go_on(others[choice % len(others)])
            self.gates[me].acquire()

    def next_entry(self):
        self.at += 1
        if self.at < len(self.schedule):
            self.left = self.schedule[self.at][1]
        else:
            self.at, self.left = 0, 1 << 60  # nobody is stopped any more
            self.schedule = [["line", self.left, 0]]

    def go_on(self, i):
        self.current = i
        self.gates[i].release()

    def body(self, me):
        self.gates[me].acquire()
        sys.settrace(self.tracer(me))
        try:
            self.results[me] = self.functions[me]()
        except BaseException as err:  # reported by the caller
            self.results[me] = err
        finally:
            sys.settrace(None)
            self.done[me] = True
            others = [i for i, d in enumerate(self.done) if not d]
            if others and not self.free:
                self.go_on(others[0])
            if not others:
                self.over.set()

    # -- outside

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.functions))]
        for t in threads:
            t.start()
        if self.free:
            self.let_go()
        else:
            self.go_on(0)
        try:
            end = time.monotonic() + LIMIT
            before = None
            while not self.over.wait(STALL):
                if not self.free and before == (self.lines, tuple(self.done)):
                    # Most likely it waits for a lock of one which is stopped
                    # (or computes for long): nobody is stopped from now on.
                    self.stalled = True
                    self.let_go()
                before = (self.lines, tuple(self.done))
                if time.monotonic() > end:
                    raise Stuck
        finally:
            self.let_go()
        for r in self.results:
            if isinstance(r, BaseException):
                raise r
        return self.results

    def let_go(self):
        self.free = True
        for g in self.gates:
            for _ in range(3):
                g.release()
