"""Runs several call sequences in real threads, interleaved at the library's own lines under a seeded scheduler."""
import sys
import threading
import zlib

import numpy as np


class Stop(BaseException):
    pass


class Baton:
    """One thread runs at a time; before any line (or byte code) of the library the turn may pass to another."""

    def __init__(self, rng, root, p, opcodes=False, limit=120., seeds=None):
        self.states = None if seeds is None else {i: np.random.RandomState(s).get_state() for i, s in enumerate(seeds)}
        self.rng, self.root, self.p, self.opcodes, self.limit = rng, root, p, opcodes, limit
        self.cond = threading.Condition()
        self.turn, self.alive, self.dead = 0, [], False
        self.points, self.switches, self.path = 0, 0, 0

    def _pass(self, to):
        self.turn = to
        self.cond.notify_all()

    def _wait(self, me):
        while self.turn != me:
            if self.dead:
                raise Stop
            self.cond.wait(.5)

    def point(self, me, frame):
        with self.cond:
            if self.dead:
                raise Stop
            self.points += 1
            if len(self.alive) > 1 and self.rng.random() < self.p:
                others = [t for t in self.alive if t != me]
                to = others[int(self.rng.integers(0, len(others)))]
                self.switches += 1
                self.path = zlib.crc32(b"%d>%d %s %d" % (me, to, frame.f_code.co_name.encode(), frame.f_lineno), self.path)
                self._leave(me)
                self._pass(to)
                self._wait(me)
                self._enter(me)

    # with seeds, every thread meets NumPy's global generator in the state it left it in
    def _leave(self, me):
        if self.states is not None:
            self.states[me] = np.random.get_state()

    def _enter(self, me):
        if self.states is not None:
            np.random.set_state(self.states[me])

    def _thread(self, me, calls, out):
        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self.point(me, frame)
            return local

        def start(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        try:
            with self.cond:
                self._wait(me)
                self._enter(me)
            sys.settrace(start)
            try:
                with np.errstate(all="ignore"):         # the error state belongs to the thread
                    for f in calls:
                        out.append(f())
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            out.append(e)
        finally:
            with self.cond:
                self.alive.remove(me)
                if self.alive and self.turn == me:
                    self._pass(self.alive[int(self.rng.integers(0, len(self.alive)))])

    def run(self, programs):
        """Results of every program; an exception takes the place of the result it prevented."""
        outs = [[] for _ in programs]
        self.alive = list(range(len(programs)))
        self.turn = int(self.rng.integers(0, len(programs)))
        ts = [threading.Thread(target=self._thread, args=(i, p, o), daemon=True) for i, (p, o) in enumerate(zip(programs, outs))]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(self.limit)
                if t.is_alive():
                    raise TimeoutError("threads did not finish")
        finally:
            self.dead = True
            with self.cond:
                self.cond.notify_all()
        return outs


def free(programs, interval=1e-6):
    """The same in freely running threads that are preempted as often as possible."""
    outs = [[] for _ in programs]
    gate = threading.Barrier(len(programs))

    def body(calls, out):
        try:
            gate.wait()
            with np.errstate(all="ignore"):
                for f in calls:
                    out.append(f())
        except BaseException as e:
            out.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    ts = [threading.Thread(target=body, args=(p, o), daemon=True) for p, o in zip(programs, outs)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(120.)
            if t.is_alive():
                raise TimeoutError("threads did not finish")
    finally:
        sys.setswitchinterval(old)
    return outs


class Texts:
    """Standard output of every thread on its own: `with Texts() as t: ... t.take()` in the thread that wrote."""

    def __enter__(self):
        self.local, self.old = threading.local(), sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *a):
        sys.stdout = self.old

    def write(self, s):
        self.local.__dict__.setdefault("parts", []).append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self):
        out = "".join(self.local.__dict__.pop("parts", []))
        return out
