"""Deterministic thread scheduler for Python code: exactly one thread runs at a time, and at every line (or every
bytecode instruction) executed inside melodia a seeded choice decides whether another thread takes over. Such switches are ones the interpreter itself may
make, so every interleaving produced is a possible one, and the seed replays it."""
import sys
import threading

from .engine import SRC, Hang


class Scheduler:
    STALL_S = 0.25           # a thread blocked on a real lock hands over after this long without progress,
    STALLED_S = 0.005        # or this long once the code is known to use locks

    def __init__(self, rng, switch=0.1, limit=4000000, opcodes=False):
        self.rng = rng
        self.switch = switch
        self.limit = limit
        self.opcodes = opcodes
        self.cv = threading.Condition()
        self.live = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.trace = []
        self.blocked = set()         # threads found waiting for a lock; not chosen until they move again
        self.stalls = 0

    def _next(self, me):
        others = [t for t in self.live if t != me and t not in self.blocked]
        if others:
            self.current = others[self.rng.randrange(len(others))]
            self.switches += 1
            self.cv.notify_all()

    def _wait(self, me):
        while self.current != me:
            before = self.steps
            stall = self.STALLED_S if self.stalls else self.STALL_S
            if not self.cv.wait(stall) and self.steps == before and self.current != me:
                self.blocked.add(self.current)
                self.stalls += 1
                self.current = me
                self.cv.notify_all()

    def _point(self, me, where):
        with self.cv:
            self.steps += 1
            self.blocked.discard(me)
            if self.steps > self.limit:
                raise Hang('too many steps')
            if self.current != me:
                self._wait(me)
            if self.rng.random() < self.switch:
                if len(self.trace) < 5000:
                    self.trace.append((me, where))
                self._next(me)
                self._wait(me)

    def run(self, functions):
        """Runs the functions in threads under the schedule; returns [(value, exception)]."""
        results = [None] * len(functions)
        self.live = list(range(len(functions)))

        def body(me, fn):
            def tracer(frame, event, arg):
                if not frame.f_code.co_filename.startswith(SRC):
                    return None
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local

            def local(frame, event, arg):
                if event == 'opcode':
                    self._point(me, (frame.f_lineno, frame.f_lasti))
                elif event == 'line' and not self.opcodes:
                    self._point(me, frame.f_lineno)
                return local

            with self.cv:
                self._wait(me)
            try:
                sys.settrace(tracer)
                try:
                    v = fn()
                finally:
                    sys.settrace(None)
                results[me] = (v, None)
            except BaseException as e:
                results[me] = (None, e)
            finally:
                with self.cv:
                    self.live.remove(me)
                    if self.current == me or self.current not in self.live:
                        ready = [t for t in self.live if t not in self.blocked] or self.live
                        if ready:
                            self.current = ready[self.rng.randrange(len(ready))]
                        self.cv.notify_all()

        threads = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(functions)]
        self.current = 0
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise Hang('threads did not finish')
        return results
