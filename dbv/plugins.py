"""A scratch directory with an importable package and entry points, on sys.path while the check runs."""

import atexit
import importlib
import os
import shutil
import sys
import tempfile
import typing as t

CLASSES = ["Alpha", "Beta", "Gamma", "Delta"]


def install(dist: str = "dbvplug") -> t.Tuple[str, str]:
    """Creates package *dist* with entry points in the groups <dist>.one and <dist>.two; returns (directory, package)."""
    d = tempfile.mkdtemp(prefix="dbv-plug-")
    atexit.register(_remove, d, os.getpid())
    pkg = os.path.join(d, dist)
    os.mkdir(pkg)
    body = "import dataclasses, typing as t\n"
    for i, c in enumerate(CLASSES):
        body += f"@dataclasses.dataclass\nclass {c}:\n    a{i}: int = {i}\n\n    class Nested:\n        class Deep:\n            pass\n\n"
    body += "def function():\n    pass\nvalue = 5\nalias = Alpha\n"
    _write(os.path.join(pkg, "__init__.py"), "class Top:\n    pass\n")
    _write(os.path.join(pkg, "mod.py"), body)
    _write(os.path.join(pkg, "other.py"), body)
    # A module with a class of its own name, and one that cannot be imported.
    _write(os.path.join(pkg, "Same.py"), "class Same:\n    pass\n")
    # Modules that exist but cannot be imported: for lack of another, one of a similar name, or a name in one.
    _write(os.path.join(pkg, "broken.py"), f"import {dist}_does_not_exist\nclass Alpha:\n    pass\n")
    _write(os.path.join(pkg, "broken2.py"), f"import {dist}.broken2_helper\nclass Alpha:\n    pass\n")
    _write(os.path.join(pkg, "broken3.py"), f"from {dist}.mod import nothing_of_that_name\nclass Alpha:\n    pass\n")
    os.mkdir(os.path.join(pkg, "sub"))
    _write(os.path.join(pkg, "sub", "__init__.py"), f"import {dist}.sub.helper_missing\n")
    _write(os.path.join(pkg, "sub", "inner.py"), "class Alpha:\n    pass\n")
    _write(os.path.join(pkg, "broken4.py"), "class Alpha:\n    pass\n{}['failing']\n")
    info = os.path.join(d, f"{dist}-1.0.dist-info")
    os.mkdir(info)
    _write(os.path.join(info, "METADATA"), f"Metadata-Version: 2.1\nName: {dist}\nVersion: 1.0\n")
    _write(os.path.join(info, "entry_points.txt"), f"""[{dist}.one]
alpha = {dist}.mod:Alpha
beta = {dist}.mod:Beta
nested = {dist}.mod:Gamma.Nested

[{dist}.two]
beta = {dist}.other:Beta
gamma = {dist}.mod:Gamma
Alpha = {dist}.other:Alpha

[{dist}.three]
alpha = {dist}.mod:Alpha
failing = {dist}.broken4:Alpha
importing = {dist}.broken:Alpha
lacking = {dist}.mod:NoSuchName
""")
    sys.path.insert(0, d)
    importlib.invalidate_caches()
    return d, dist


def _write(path: str, text: str) -> None:
    with open(path, "w") as fp:
        fp.write(text)


def _remove(d: str, pid: int) -> None:
    if os.getpid() == pid and os.path.basename(d).startswith("dbv-plug-"):
        shutil.rmtree(d, ignore_errors=True)
