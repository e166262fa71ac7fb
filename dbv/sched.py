"""Running threads under a scheduler that decides at the lines of the library who goes on."""

import dis
import hashlib
import os
import random
import sys
import threading
import time
import typing as t

from dbv import env

LIB = os.path.join(env.SRC, "databind")
STORES = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_SLICE"}
MUTATORS = {"append", "setdefault", "update", "pop", "add", "extend", "insert", "clear", "remove", "discard", "popitem"}
_after: t.Dict[t.Any, t.FrozenSet[int]] = {}


def after_store(code: t.Any) -> t.FrozenSet[int]:
    """The lines that come right after one that may have changed an object: where others may see it half done."""
    got = _after.get(code)
    if got is None:
        out = set()
        armed = None
        line = None
        for ins in dis.get_instructions(code):
            if ins.positions is not None and ins.positions.lineno is not None:
                line = ins.positions.lineno
            if armed is not None and line != armed:
                out.add(line)
                armed = None
            if ins.opname in STORES or ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in MUTATORS:
                armed = line
        got = _after[code] = frozenset(out)
    return got


class Scheduler:
    """One thread at a time holds the turn; at a traced line it may be passed on. A thread that does not get the turn
    in time (the holder waits for a lock, say) goes on without it."""

    def __init__(self, n: int, seed: t.Any, p: float, focus: t.Sequence[str] = (), patience: float = 0.02, stores: float = 0.0, holds: t.Sequence[int] = (0,)) -> None:
        self.n, self.p, self.focus, self.patience = n, p, focus, patience
        self.rng = random.Random(seed)
        self.stores = stores  # The probability of a switch right after a change of an object.
        self.holds = holds  # For how many lines nobody else gets the turn after a switch.
        self.hold = 0
        self.cv = threading.Condition()
        self.alive = set(range(n))
        self.turn = self.rng.randrange(n)
        self.trace: t.List[t.Tuple[int, int]] = []
        self.switches = 0
        self.impatient = 0
        self.points = 0

    def point(self, me: int, frame: t.Any) -> None:
        self.points += 1
        p = 0.5 if any(f in frame.f_code.co_filename for f in self.focus) else self.p
        if self.turn == me:
            if self.hold > 0:
                self.hold -= 1
                return
            if self.stores and frame.f_lineno in after_store(frame.f_code):
                p = self.stores
            if self.rng.random() >= p:
                return
        with self.cv:
            if self.turn == me:
                others = [x for x in self.alive if x != me]
                if not others:
                    return
                self.turn = self.rng.choice(others)
                self.switches += 1
                self.hold = self.rng.choice(self.holds)
                self.trace.append((me, frame.f_lineno))
                self.cv.notify_all()
            end = time.monotonic() + self.patience
            while self.turn != me and self.turn in self.alive:
                left = end - time.monotonic()
                if left <= 0:
                    self.impatient += 1
                    self.turn = me
                    break
                self.cv.wait(left)

    def leave(self, me: int) -> None:
        with self.cv:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = self.rng.choice(sorted(self.alive))
            self.cv.notify_all()

    def tracer(self, me: int) -> t.Any:
        def local(frame: t.Any, event: str, arg: t.Any) -> t.Any:
            if event == "line":
                self.point(me, frame)
            return local

        def outer(frame: t.Any, event: str, arg: t.Any) -> t.Any:
            if frame.f_code.co_filename.startswith(LIB):
                return local
            return None

        return outer

    def fingerprint(self) -> str:
        return hashlib.blake2b(repr(self.trace).encode(), digest_size=8).hexdigest()


def run_threads(bodies: t.Sequence[t.Callable[[], None]], sched: t.Optional[Scheduler], timeout: float = 60.0) -> t.List[BaseException]:
    """Runs the bodies at the same time; errors of the harness itself are returned."""
    barrier = threading.Barrier(len(bodies))
    errors: t.List[BaseException] = []

    def main(i: int) -> None:
        try:
            barrier.wait()
            if sched is not None:
                sys.settrace(sched.tracer(i))
            try:
                bodies[i]()
            finally:
                sys.settrace(None)
                if sched is not None:
                    sched.leave(i)
        except BaseException as exc:  # noqa
            errors.append(exc)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if sched is None else 0.005)
    try:
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(bodies))]
        for x in ts:
            x.start()
        end = time.monotonic() + timeout
        for x in ts:
            x.join(max(0.1, end - time.monotonic()))
        if any(x.is_alive() for x in ts):
            errors.append(TimeoutError("threads did not finish: deadlock?"))
    finally:
        sys.setswitchinterval(old)
    return errors
