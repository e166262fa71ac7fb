"""Runs conversions described by a file in this interpreter and writes down what came of each.

usage: child30.py VERIF_DIR INPUT OUTPUT
"""

import copy
import pickle
import re
import sys
import types

sys.path.insert(0, sys.argv[1])

from dbv import env

env.setup()

import typeapi

import databind.core
import databind.json
from databind.core import Context, ExtraKeys, Union, convert_to_schema
from dbv import model as M
from dbv.core import LineMonitor
from dbv.util import canon, ctx_path, observe

ADDR = re.compile(r"0x[0-9a-fA-F]+")


def unorder(x):
    if isinstance(x, list):
        return sorted(map(unorder, x), key=canon)
    if isinstance(x, dict):
        return {k: unorder(v) for k, v in x.items()}
    return x


def text(o, sets):
    if o.ok:
        return "returned " + canon(unorder(o.value) if sets else o.value)
    if o.refused:
        return f"refused {type(o.exc).__name__}" + ("" if sets else f" at {ctx_path(o.exc)!r}")
    return f"raised {type(o.exc).__name__}"


def schema(T):
    s = convert_to_schema(typeapi.TypeHint(T))
    return [(k, f.required, list(f.aliases), f.flattened, f.has_default(), ADDR.sub("0x", repr(f.datatype))) for k, f in s.fields.items()], s.annotations and [type(a).__name__ for a in s.annotations]


def run_item(it, ns, name, sets):
    if it["op"] == "registries":
        out = []
        for k in sorted(ns):
            for a in list(getattr(ns[k], "__metadata__", ())) if not isinstance(ns[k], type) else []:
                if isinstance(a, Union):
                    out.append(f"{k}: {a.members.get_type_ids()}")
        return "; ".join(out)
    T = eval(compile(it["type"], f"<{name}>", "eval"), ns)
    if it["op"] == "schema":
        o = observe(schema, T)
        return ADDR.sub("0x", repr(o.value)) if o.ok else f"raised {type(o.exc).__name__}"
    v = pickle.loads(it["data"])
    kw = {}
    st = list(M.settings_for(it["glob"]))
    log = []
    if it["record"]:
        st = [s for s in st if not isinstance(s, ExtraKeys)] + [ExtraKeys(True, lambda ctx, keys: log.append((repr([c.key for c in ctx.iter_hierarchy_up() if c.key is not Context.ROOT]), sorted(map(repr, keys)))))]
    if st:
        kw["settings"] = st
    if it["filename"]:
        kw["filename"] = it["filename"]
    fn = getattr(databind.json, it["op"])
    out = text(observe(fn, v, T, **kw), sets)
    return out + (f" extra {log if not sets else sorted(log)!r}" if log else "")


def main():
    with open(sys.argv[2], "rb") as fp:
        batch = pickle.load(fp)
    lines = set()
    mon = LineMonitor(lines)
    if batch["lines"]:
        mon.start()
    results = []
    for u in batch["universes"]:
        m = types.ModuleType(u["name"])
        sys.modules[u["name"]] = m
        D = pickle.loads(u["early"])
        m.__dict__["_D"] = D
        m.__dict__["_mk"] = lambda i, D=D: copy.deepcopy(D[i])
        try:
            exec(compile(u["source"], f"<{u['name']}>", "exec"), m.__dict__)
        except BaseException as exc:
            results.append([f"module: raised {type(exc).__name__}: {exc}"])
            continue
        for i, b in u["late"]:
            D[i] = pickle.loads(b)
        results.append([run_item(it, m.__dict__, u["name"], it.get("sets", False)) for it in u["items"]])
    mon.stop()
    with open(sys.argv[3], "wb") as fp:
        pickle.dump({"results": results, "debug": __debug__, "hash": hash("databind"), "lines": lines, "optimize": sys.flags.optimize}, fp)


main()
