"""Calls into the library as data, and what each does when it is the first thing to happen (observed in a forked child)."""

import os
import pickle
import re
import sys
import traceback
import typing as t

from dbv.util import canon, ctx_path, observe

ADDR = re.compile(r"0x[0-9a-fA-F]+")


def text(o: t.Any) -> str:
    """All there is to an outcome: the result, or the error with its place and its full rendering."""
    if o.ok:
        return "returned " + canon(o.value)
    if o.refused:
        return ADDR.sub("0x", f"refused {type(o.exc).__name__} at {ctx_path(o.exc)!r}: {o.exc}")
    return ADDR.sub("0x", f"raised {type(o.exc).__name__}: {o.exc}")


def alone(fn: t.Callable[[], t.Any]) -> str:
    """What *fn* does in a copy of this process as it is now; the copy is thrown away."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = text(observe(fn)).encode("utf8", "backslashreplace")
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            traceback.print_exc()
            os._exit(1)
        os._exit(0)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError("the pristine copy failed")
    return b"".join(chunks).decode("utf8")


def safe(s: str) -> str:
    return s.encode("utf8", "backslashreplace").decode("utf8")
