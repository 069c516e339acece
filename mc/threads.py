"""Runs functions in threads of which exactly one runs at a time; every line of psion is a scheduling point."""
import os
import sys
import threading

import psion

PREFIX = os.path.realpath(os.path.dirname(psion.__file__)) + os.sep
STUCK = 3.0  # seconds without progress: the running thread waits for something a paused one holds


class Schedule:
    def __init__(self, ctx, fns):
        self.ctx, self.fns = ctx, fns
        self.gates = [threading.Semaphore(0) for _ in fns]
        self.finished = threading.Semaphore(0)
        self.left = list(range(len(fns)))
        self.results = [None] * len(fns)
        self.error = None
        self.events = 0
        self.switches = []
        self.spent = False

    def pick(self, me):
        """Which thread goes on: the running one for free, another at the cost of a preemption."""
        others = [t for t in self.left if t != me]
        if me in self.left:
            order, costs = [me, *others], (0,) + (1,) * len(others)
        else:
            order, costs = others, (0,) * len(others)
        if not order:
            return None
        i = self.ctx.choose(len(order), "thread:" + ",".join(map(str, order)), costs) if len(order) > 1 else 0
        return order[i]

    def point(self, me):
        self.events += 1
        if self.error is not None or len(self.left) < 2:
            return
        ctx = self.ctx
        if ctx.bound is not None and ctx.trail and ctx.trail[-1][4] >= ctx.bound:
            self.spent = True  # no preemption left: both run on undisturbed
            return
        try:
            nxt = self.pick(me)
        except BaseException as exc:  # the engine stops this execution
            self.error = exc
            return
        if nxt != me:
            self.switches.append((me, nxt))
            self.gates[nxt].release()
            self.gates[me].acquire()

    def body(self, me):
        self.gates[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.point(me)
                if self.spent:
                    sys.settrace(None)
                    return None
            return local

        def trace(frame, event, arg):
            if self.spent:
                sys.settrace(None)
                return None
            return local if frame.f_code.co_filename.startswith(PREFIX) else None

        sys.settrace(trace)
        try:
            out = ("ok", self.fns[me]())
        except BaseException as exc:
            out = ("raise", exc)
        finally:
            sys.settrace(None)
        self.results[me] = out
        self.left.remove(me)
        if self.left:
            try:
                nxt = self.pick(me) if self.error is None else self.left[0]
            except BaseException as exc:
                self.error, nxt = exc, self.left[0]
            self.gates[nxt].release()
        else:
            self.finished.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        first = self.pick(None)
        self.gates[first].release()
        seen = -1
        while not self.finished.acquire(timeout=STUCK):
            if self.events == seen or self.spent:  # blocked on a lock of the code: let the others go on
                for g in self.gates:
                    g.release()
            seen = self.events
        for t in ts:
            t.join()
        if self.error is not None:
            raise self.error
        return self.results


def run_threads(ctx, fns):
    s = Schedule(ctx, fns)
    return s.run(), s
