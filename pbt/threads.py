"""Threads that take turns at the lines of the code under test, in an order that follows from a seed."""
import os
import random
import sys
import threading

from . import boot

ROOT = os.path.abspath(boot.REPO) + os.sep


class Turns:
    """One thread runs at a time; after some number of lines another one takes over."""

    def __init__(self, jobs, seed, mean):
        self.rng = random.Random(seed)
        self.mean = mean
        self.jobs = jobs
        self.alive = list(range(len(jobs)))
        self.gates = [threading.Semaphore(0) for _ in jobs]
        self.results = [None] * len(jobs)
        self.errors = [None] * len(jobs)
        self.lock = threading.Lock()
        self.left = 0
        self.turn = -1
        self.switches = 0

    def pick(self, me):
        """Chooses who runs next; wakes him unless it is the caller."""
        with self.lock:
            self.left = 1 + int(self.rng.expovariate(1.0 / self.mean))
            if not self.alive:
                return True
            self.turn = self.rng.choice(self.alive)
            if self.turn == me:
                return True
            self.switches += 1
            self.gates[self.turn].release()
            return False

    def line(self, me):
        self.left -= 1
        if self.left > 0 or self.turn != me:
            return
        if not self.pick(me):
            # should the others be held up by a lock that this one has, it goes on after a while
            self.gates[me].acquire(timeout=5)

    def body(self, me):
        self.gates[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.line(me)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None
        sys.settrace(trace)
        try:
            self.results[me] = self.jobs[me]()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            with self.lock:
                self.alive.remove(me)
            self.pick(me)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.pick(None)
        for t in ts:
            while t.is_alive():
                t.join(0.5)
        return self.results, self.errors
