"""Controlled scheduling of real threads.

Every line (or bytecode) executed in the code under test is a point where the
running thread may be stopped and another one continued; which one is decided
by a Source, so a schedule is a list of recorded choices.  Only one thread
runs at a time.  A thread that stops making progress because it waits for a
lock held by a stopped thread is noticed by time and the token moves on.

Schedules are random (a switch at each point with some probability), have a
few switches at random steps, or are aimed: the first thread is stopped when
it reaches a place (a line or bytecode, chosen among the distinct ones it
reaches when it runs alone) for the n-th time, and the others run before it
continues.
"""
import sys
import threading

LOCK_WAIT_S = 0.02


class Scheduler(object):
    def __init__(self, src, code_prefix, opcodes=False, mode=None,
                 aims=None):
        self.src = src
        self.prefix = code_prefix
        self.opcodes = opcodes
        self.cond = threading.Condition()
        self.current = None
        self.alive = set()
        self.blocked = set()
        self.steps = 0
        self.switches = 0
        self.steals = 0
        self.trace = []
        self.dead = False
        self.aims = aims    # {thread: (place, how many times reached)}
        if aims is not None:
            self.points = set()
            return
        m = src.draw(4) if mode is None else mode
        if m == 0:
            self.points = None
            self.rate = src.choice((2, 4, 10, 30))
        else:
            # few preemptions at chosen steps
            n = src.int(1, 2 + m)
            top = src.choice((30, 120, 400, 1500))
            self.points = {src.draw(top) for _ in range(n)}

    # -- called by the threads -------------------------------------------------
    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point(frame)
        return self._local

    def point(self, frame):
        me = threading.get_ident()
        if me not in self.alive:
            return
        with self.cond:
            if self.dead:
                return
            self.blocked.discard(me)
            if self.current != me:
                self._wait(me)
                return
            self.steps += 1
            if self._switch_now(me, frame):
                others = sorted(self.order[t] for t in self.alive
                                if t != me and t not in self.blocked)
                if others:
                    nxt = others[self.src.draw(len(others))]
                    self.switches += 1
                    self.trace.append((self.order[me], frame.f_lineno or 0, nxt))
                    self.current = self.ids[nxt]
                    self.cond.notify_all()
                    self._wait(me)

    def _switch_now(self, me, frame):
        if self.aims is not None:
            i = self.order[me]
            aim = self.aims.get(i)
            if aim is None or place(frame, self.opcodes) != aim[0]:
                return False
            self.aims[i] = (aim[0], aim[1] - 1)
            return aim[1] == 1
        if self.points is None:
            return self.src.draw(self.rate) == self.rate - 1
        return self.steps in self.points

    def _wait(self, me):
        while self.current != me and not self.dead:
            before = self.steps
            cur = self.current
            if self.cond.wait(LOCK_WAIT_S):
                continue
            if self.current == cur and self.steps == before and \
                    cur is not None and cur != me:
                # the running thread waits for something we hold
                self.blocked.add(cur)
                self.steals += 1
                self.current = me

    def _finish(self, me):
        with self.cond:
            self.alive.discard(me)
            self.blocked.discard(me)
            if self.current == me:
                rest = sorted(self.order[t] for t in self.alive
                              if t not in self.blocked) or \
                    sorted(self.order[t] for t in self.alive)
                if rest:
                    self.current = self.ids[rest[self.src.draw(len(rest))]]
                else:
                    self.current = None
            self.cond.notify_all()

    # -- entry -------------------------------------------------------------------
    def run(self, fns, timeout=20):
        """Run the functions as threads under control; returns
        [(result, exception)]."""
        out = [None] * len(fns)
        ready = threading.Barrier(len(fns) + 1)
        go = threading.Event()
        self.order = {}
        self.ids = {}

        def body(i, fn):
            me = threading.get_ident()
            with self.cond:
                self.order[me] = i
                self.ids[i] = me
                self.alive.add(me)
            ready.wait()
            go.wait()
            with self.cond:
                self._wait(me)
            sys.settrace(self._tracer)
            try:
                try:
                    out[i] = (fn(), None)
                finally:
                    sys.settrace(None)
            except BaseException as e:
                out[i] = (None, e)
            self._finish(me)
        ts = [threading.Thread(target=body, args=(i, f), daemon=True)
              for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        ready.wait()
        with self.cond:
            self.current = self.ids[self.src.draw(len(fns))
                                    if self.aims is None else 0]
            go.set()
            self.cond.notify_all()
        for t in ts:
            t.join(timeout)
            if t.is_alive():
                with self.cond:
                    self.dead = True
                    self.cond.notify_all()
                t.join(timeout)
                return None
        return out


def place(frame, opcodes):
    code = frame.f_code
    return (code.co_filename, frame.f_lineno,
            frame.f_lasti if opcodes else code.co_name)


def places(fn, prefix, opcodes=False):
    """The distinct places of the code a function passes, with the number
    of times it does."""
    found = {}

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(prefix):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local

    def local(frame, event, arg):
        if event == ('opcode' if opcodes else 'line'):
            p = place(frame, opcodes)
            found[p] = found.get(p, 0) + 1
        return local
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(old)
    return list(found.items())


def aim(src, fns, prefix, opcodes=False):
    """Places to stop some of the threads at; fns run each thread's work
    alone, on objects of their own."""
    out = {}
    for i, fn in enumerate(fns):
        if i and not src.bool(1, 4):
            continue
        found = places(fn, prefix, opcodes)
        if found:
            p, n = found[src.draw(len(found))]
            out[i] = (p, src.int(1, min(n, 3)))
    return out
