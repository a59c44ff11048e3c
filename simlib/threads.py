"""Seeded thread scheduler.

Real Python threads, one running at a time.  At every traced event of naima
code (source line or bytecode instruction) the scheduler may hand the baton to
another thread; the decisions come from a seed or from an explicit list.
"""
import os
import random
import sys
import threading
import time


class Scheduler:
    def __init__(self, n, policy, where="/naima/"):
        self.n = n
        self.policy = policy
        self.where = where
        self.rng = random.Random(policy.get("seed", 0))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.current = None
        self.events = 0
        self.switches = []
        self.sites = []
        self.last = time.monotonic()
        self.stalled = 0
        self.opcodes = policy.get("opcodes", False)
        self.explicit = {}
        self.places = {}
        if policy["kind"] == "explicit":
            for at, to in policy["switches"]:
                self.explicit[at] = to
        elif policy["kind"] == "points":
            self.points = set(policy["points"])
        self.done = threading.Event()
        self.results = [None] * n

    # -- tracing ----------------------------------------------------------
    def tracer(self, tid):
        where = self.where

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.event(tid, frame)
            return local

        def glob(frame, event, arg):
            if where in frame.f_code.co_filename:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                self.event(tid, frame)
                return local
            return None

        return glob

    def event(self, tid, frame):
        if self.current != tid:
            # resumed after blocking on something while another one ran
            self.sems[tid].acquire()
        self.events += 1
        self.last = time.monotonic()
        k = self.events
        p = self.policy
        to = None
        if p["kind"] == "explicit":
            to = self.explicit.get(k)
        elif p["kind"] == "random":
            if self.rng.random() < p["p"]:
                to = "any"
        elif p["kind"] == "points":
            if k in self.points:
                to = "any"
        elif p["kind"] == "site":
            # hand over whenever the given function is entered or about to go on
            if frame.f_code.co_name in p["names"] and self.rng.random() < p["p"]:
                to = "any"
        elif p["kind"] == "lockstep":
            # line by line in turn, the first one some lines ahead
            if k > p["lag"] and self.rng.random() < p["p"]:
                ring = sorted(self.alive)
                to = ring[(ring.index(tid) + 1) % len(ring)]
        elif p["kind"] == "place":
            # places in the source chosen once for all, whenever reached
            loc = (frame.f_code.co_name, frame.f_lineno)
            if loc not in self.places:
                self.places[loc] = random.Random("%s%s" % (p["seed"], loc)).random() < p["p"]
            if self.places[loc]:
                to = "any"
        if to == "any":
            others = sorted(self.alive - {tid})
            to = self.rng.choice(others) if others else None
        if to is not None and to != tid and to in self.alive:
            self.switches.append([k, to])
            self.sites.append((frame.f_code.co_name, frame.f_lineno))
            self.current = to
            self.sems[to].release()
            self.sems[tid].acquire()

    # -- running ----------------------------------------------------------
    def _thread(self, tid, func):
        self.sems[tid].acquire()
        sys.settrace(self.tracer(tid))
        try:
            self.results[tid] = func()
        finally:
            sys.settrace(None)
            self.alive.discard(tid)
            if self.current == tid:
                nxt = sorted(self.alive)
                if nxt:
                    self.current = self.rng.choice(nxt)
                    self.sems[self.current].release()
            if not self.alive:
                self.done.set()

    def run(self, funcs, stall=2.0, limit=60.0):
        ths = [
            threading.Thread(target=self._thread, args=(i, f), daemon=True)
            for i, f in enumerate(funcs)
        ]
        for t in ths:
            t.start()
        self.current = self.policy.get("first", 0) % self.n
        t0 = time.monotonic()
        self.last = t0
        self.sems[self.current].release()
        while not self.done.wait(0.2):
            now = time.monotonic()
            if now - t0 > limit:
                return False
            if now - self.last > stall and self.alive:
                # the running thread waits for something another one holds
                others = sorted(self.alive - {self.current})
                if others:
                    self.stalled += 1
                    self.last = now
                    self.current = others[self.stalled % len(others)]
                    self.sems[self.current].release()
        for t in ths:
            t.join(5)
        return True
