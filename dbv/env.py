"""Locating the library under test: /repo's working tree, never an installed copy, never a byte code cache."""

import os
import sys

REPO = os.environ.get("DBV_REPO", "/repo")
SRC = os.path.join(REPO, "databind", "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup() -> None:
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent"
    # The first entry wins over the .pth file of the environment.
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    import logging

    logging.disable(logging.CRITICAL)
    import databind.core
    import databind.json

    for m in (databind.core, databind.json):
        if not os.path.abspath(m.__file__).startswith(SRC + os.sep):
            raise SystemExit(f"inconclusive: {m.__name__} was imported from {m.__file__}, not from {SRC}")
