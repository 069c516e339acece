"""An asyncio event loop whose scheduler is driven by ctx.choose."""
import asyncio
import heapq
import threading
from asyncio import base_events, events


class Deadlock(BaseException):
    pass


class ControlledLoop(base_events.BaseEventLoop):
    """Executes one ready handle per step.

    Handles of controlled tasks are scheduled by choice; all other handles (future callbacks, the main
    coroutine) run first, in FIFO order. The clock of the loop is virtual: it jumps to the next timer
    when nothing is ready.
    """

    def __init__(self, ctx=None, on_switch=None):
        super().__init__()
        self._ctx = ctx
        self._vtime = 0.0
        self._cond = threading.Condition()
        self._external = 0
        self._tasks = {}
        self._last = None
        self.schedule = []
        self._on_switch = on_switch
        self.set_exception_handler(lambda loop, context: self.errors.append(context))
        self.errors = []

    # required by BaseEventLoop
    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        with self._cond:
            self._cond.notify_all()

    def time(self):
        return self._vtime

    def run_in_executor(self, executor, func, *args):
        self._external += 1
        fut = super().run_in_executor(executor, func, *args)

        def done(_):
            self._external -= 1

        fut.add_done_callback(done)
        return fut

    def control(self, task, index):
        self._tasks[id(task)] = (index, task)

    def _owner(self, handle):
        owner = getattr(handle._callback, "__self__", None)
        if isinstance(owner, asyncio.Task):
            entry = self._tasks.get(id(owner))
            if entry and entry[1] is owner:
                return entry[0]
        return None

    def _run_once(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            heapq.heappop(self._scheduled)._scheduled = False
        for h in [h for h in self._ready if h._cancelled]:
            self._ready.remove(h)
        if not self._ready and not self._stopping:
            if self._external:
                with self._cond:
                    if not self._ready:
                        self._cond.wait(1.0)
                return
            if not self._scheduled:
                raise Deadlock("no runnable task and no timer")
            self._vtime = max(self._vtime, self._scheduled[0]._when)
        end = self._vtime + self._clock_resolution
        while self._scheduled and self._scheduled[0]._when <= end:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)
        if not self._ready:
            return
        pick = None
        controlled = {}
        for h in self._ready:
            o = self._owner(h)
            if o is None:
                pick = h
                break
            controlled.setdefault(o, h)
        if pick is None:
            order = sorted(controlled)
            costs = [0] * len(order)
            if self._last in controlled:
                order.remove(self._last)
                order.insert(0, self._last)
                costs = [0] + [1] * (len(order) - 1)
            i = 0
            if self._ctx is not None and len(order) > 1:
                i = self._ctx.choose(len(order), "sched:" + ",".join(map(str, order)), tuple(costs))
            self._last = order[i]
            self.schedule.append(order[i])
            pick = controlled[order[i]]
            if self._on_switch:
                self._on_switch(self)
        self._ready.remove(pick)
        if not pick._cancelled:
            pick._run()


def run_tasks(ctx, factories, on_switch=None):
    """Run coroutine factories concurrently under the controlled scheduler.

    Returns a list of ("ok", result) or ("raise", exception), in factory order, plus the schedule.
    """
    loop = ControlledLoop(ctx, on_switch)

    async def main():
        tasks = []
        for i, f in enumerate(factories):
            t = loop.create_task(f())
            loop.control(t, i)
            tasks.append(t)
        await asyncio.wait(tasks)
        out = []
        for t in tasks:
            if t.cancelled():
                out.append(("raise", asyncio.CancelledError()))
            elif t.exception() is not None:
                out.append(("raise", t.exception()))
            else:
                out.append(("ok", t.result()))
        return out

    try:
        events.set_event_loop(None)
        return loop.run_until_complete(main()), loop.schedule
    finally:
        try:
            loop.run_until_complete(loop.shutdown_asyncgens())
        except BaseException:
            pass
        loop.close()


def run_single(coro_fn):
    """Run one coroutine to completion with no scheduling choice; exceptions propagate."""
    (out,), _ = run_tasks(None, [coro_fn])
    kind, val = out
    if kind == "raise":
        raise val
    return val


class Runner:
    """Fast driver for one coroutine at a time when no scheduling is involved (same loop reused)."""

    def __init__(self):
        self.loop = None

    def __call__(self, coro):
        if self.loop is None or self.loop.is_closed():
            self.loop = ControlledLoop(None)
            events.set_event_loop(None)
        try:
            return self.loop.run_until_complete(coro)
        except Deadlock:
            self.loop.close()
            self.loop = None
            raise


run = Runner()
