"""The same module and the same conversions in several interpreters: other hash seeds, assertions away, a fresh process each."""

import json
import os
import pickle
import re
import subprocess
import sys
import tempfile

from dbv import env as where, gen
from dbv.common import *
from dbv.foreign import foreign

ID = "C30"
CASES = {"quick": 40, "thorough": 3000}
RULE = "one conversion (or schema or registry) done in four interpreter processes that differ in hash seed, optimisation, time zone and locale; trivial if its outcome is the same for everything, such as a null"
MINIMA = {"conversions": 2500, "accepted": 1200, "refused": 600, "processes": 150, "without assertions": 30, "without docstrings": 8, "hash seeds seen": 150, "schemas": 250, "registries": 100, "types with many fields": 150,
          "TypedDict with many keys": 40, "extra keys reported": 15, "results with several keys": 300, "overlapping unions": 100,
          "types whose keys may clash": 100, "unknown keys clash with fields": 40, "other time zone or locale": 60}
CHILD = os.path.join(where.VERIF, "dbv", "child30.py")
ASSUMPTIONS = ["the iteration order of sets is theirs: outputs of modules that mention sets are compared with lists unordered", "only this machine's Python 3.12"]


SETS = re.compile(r"Set\[|\bset\[|\bfrozenset\b")


def wide(u, r, case):
    """A type with many fields."""
    case.count("types with many fields")
    kind = r.choice(["dc", "xdc", "td", "td", "td", "nt"])
    n = r.randrange(5, 12)
    fields, used = [], set()
    prefix = r.choice(["", "k", "zz_", "Ab"])
    for _ in range(n):
        f = u.field(r.choice([0, 0, 0, 1]), kind)
        f.name = prefix + r.choice("abcdefghij") + str(u.b.uid())
        f.aliases = [a for a in f.aliases if a not in used]
        used |= {f.name, *f.aliases}
        fields.append(f)
    if kind == "td":
        case.count("TypedDict with many keys")
        for f in fields:
            f.notreq = r.random() < 0.5
        if len({f.notreq for f in fields}) > 1:
            for f in fields:
                f.default = M.NODEF
        return M.Struct(u.b, fields, kind, functional=r.random() < 0.2 and len({f.notreq for f in fields}) == 1 and all(f.default is M.NODEF for f in fields))
    if kind != "nt" and r.random() < 0.4:
        fields.append(M.FieldSpec(f"rest{u.b.uid()}", M.Map(r.choice(["Dict", "Mapping", "OrderedDict"]), M.Str(), u.leaf(["int", "any", "str"])), remainder=True))
    elif kind != "nt" and r.random() < 0.5:
        fields.append(M.FieldSpec(f"flat{u.b.uid()}", u.struct(1, "dc", flatten_depth=0), flat=True))
    if kind == "nt":
        fields.sort(key=lambda f: f.default is not M.NODEF)
    return M.Struct(u.b, fields, kind, options="kw_only=True" if kind in ("dc", "xdc") else "")


def crooked(u, r, case):
    """A type that is wrong, or that is easily used wrongly: keys that clash, two places for unknown keys."""
    case.count("types whose keys may clash")
    k = r.randrange(6)
    b = u.b
    leaf = lambda: u.leaf(["int", "any", "str"])
    fields = [M.FieldSpec(x, leaf(), default=("value", b.default_slot(lambda: 3, False)) if r.random() < 0.3 else M.NODEF) for x in r.sample(["a", "b", "c", "d"], r.randrange(1, 4))]
    rest = lambda n: M.FieldSpec(n, M.Map(r.choice(["Dict", "Mapping"]), M.Str(), leaf()), remainder=True)
    if k == 0:
        fields.insert(r.randrange(len(fields) + 1), rest("rest"))
    elif k == 1:
        fields += [rest("rest"), rest("more")]
        case.count("two remainders")
    elif k == 5:
        # Both a place for unknown keys and flattened: wrong, and found out only when there is a value.
        f = rest("rest")
        f.flat = True
        fields.insert(r.randrange(len(fields) + 1), f)
        case.count("remainder that is flattened")
    elif k == 2:
        r.choice(fields).aliases = [r.choice("abcde")]
        fields.append(M.FieldSpec("e", leaf(), aliases=[r.choice("abcd")]))
    else:
        inner = M.Struct(b, [M.FieldSpec(x, leaf()) for x in r.sample(["a", "b", "x"], 2)] + ([rest("rest")] if k == 4 else []), "dc", options="kw_only=True")
        fields.append(M.FieldSpec("flat", inner, flat=True))
        if r.random() < 0.5:
            fields.append(rest("other"))
    return M.Struct(b, fields, "dc", options="kw_only=True")


def clash(v, r):
    """Puts the keys of fields among the unknown keys a value carries."""
    for x in [v, getattr(v, "flat", None)]:
        for n in ("rest", "more", "other"):
            d = getattr(x, n, None)
            if isinstance(d, dict) and r.random() < 0.8:
                d[r.choice(["a", "b", "c", "d", "e", "x", "rest", "flat"])] = r.choice([1, "s"])
                return True
    return False


def universe(case):
    r = case.rng
    for _ in range(20):
        disjoint = r.random() < 0.4
        u = gen.Universe(r, gen.Profile(disjoint=disjoint, comps=gen.COMPS + ["union", "td", "tagged", "tagged"]))
        try:
            nodes = [wide(u, r, case) if r.random() < 0.45 else u.node(r.choice([1, 2, 2, 3])) for _ in range(2)]
            nodes += [u.tagged(1), u.union(2)]
            if r.random() < 0.3:
                nodes.append(M.Coll("List", nodes[0]))
            if r.random() < 0.6:
                nodes.append(crooked(u, r, case))
            if not disjoint:
                case.count("overlapping unions")
            u.build(*nodes)
            src = u.b.source()
            late = {i for i, _ in u.b.late_defaults}
            d = {"name": u.b.name, "source": src, "early": pickle.dumps([None if i in late else x for i, x in enumerate(u.b.defaults)]),
                 "late": [(i, pickle.dumps(u.b.defaults[i])) for i in sorted(late)], "items": [{"op": "registries"}]}
        except Skip:
            u.b.close()
            continue
        except Exception:
            u.b.close()
            raise
        has_sets = bool(SETS.search(src) or any(SETS.search(n.expr) for n in nodes))
        break
    else:
        raise Skip("no module")
    try:
        for n in nodes:
            if isinstance(n, (M.Struct, M.Gen_)):
                d["items"].append({"op": "schema", "type": n.expr})
        for _ in range(14):
            n = r.choice(nodes)
            env = M.Env(r.choice(gen.GLOBS))
            it = {"type": n.expr, "glob": env.glob, "filename": r.choice([None, None, "a.json"]), "record": r.random() < 0.3}
            try:
                if r.random() < 0.6:
                    _, p = payload(case, n, env, ("valid", "mutated", "mutated", "junk"))
                    if r.random() < 0.25 and isinstance(p, dict):
                        # Several keys nobody knows.
                        p = {**p, **{f"extra{r.choice('abcdefghij')}{i}": r.randrange(9) for i in range(r.randrange(2, 6))}}
                    it["op"], v = "load", p
                    if r.random() < 0.15:
                        it["op"], v = "loads", json.dumps(p)
                else:
                    with M.Sabotage(r.choice([1, 2, 4, 99, 99, 99]), lambda node: foreign(r)):
                        v = n.gen(r, env)
                    if clash(v, r):
                        case.count("unknown keys clash with fields")
                    it["sets"] = has_sets or "set{" in canon(v)
                    it["op"] = "dump" if it["sets"] or r.random() < 0.7 else "dumps"
                it["data"] = pickle.dumps(v)
            except Exception:
                case.count("skipped: input cannot be built or recorded")
                continue
            d["items"].append(it)
    finally:
        u.b.close()
    return d


def run(case):
    r = case.rng
    us = [universe(case) for _ in range(8)]
    tmp = tempfile.mkdtemp(prefix="dbv30-")
    files = []
    try:
        inp = os.path.join(tmp, "in")
        files.append(inp)
        configs = [("0", [])] + [(str(r.randrange(1, 4294967295)), f) for f in r.choice([[[], ["-O"], ["-OO"]], [[], [], ["-O"]], [[], ["-O"], ["-O"]], [["-X", "dev"], ["-OO"], []]])]
        procs = []
        with open(inp, "wb") as fp:
            pickle.dump({"universes": us, "lines": True}, fp)
        for i, (seed, flags) in enumerate(configs):
            out = os.path.join(tmp, f"out{i}")
            files.append(out)
            e = {**os.environ, "PYTHONHASHSEED": seed, "PYTHONDONTWRITEBYTECODE": "1"}
            if i and r.random() < 0.7:
                case.count("other time zone or locale")
                for k, vs in (("TZ", ["America/St_Johns", "XYZ-13:45", "UTC"]), ("LC_ALL", ["C", "POSIX", "tr_TR.UTF-8"]), ("PYTHONUTF8", ["0", "1"]), ("LANG", ["C"]), ("HOME", [tmp]), ("USER", ["nobody"])):
                    if r.random() < 0.5:
                        e[k] = r.choice(vs)
            p = subprocess.run([sys.executable, *flags, CHILD, where.VERIF, inp, out], env=e, capture_output=True, text=True, timeout=600, cwd=tmp)
            case.count("processes")
            if "-O" in flags:
                case.count("without assertions")
            if "-OO" in flags:
                case.count("without assertions")
                case.count("without docstrings")
            res = None
            if p.returncode == 0 and os.path.exists(out):
                with open(out, "rb") as fp:
                    res = pickle.load(fp)
                assert res["debug"] == (not any(f.startswith("-O") for f in flags)), "wrong optimisation level"
            if res is None and i == 0:
                raise RuntimeError(f"the first process failed: {p.stderr[-2000:]}")
            procs.append((seed, flags, res, p.stderr))
    finally:
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(tmp)
    base = procs[0][2]
    case.agg.lines |= base["lines"]
    case.count("hash seeds seen", len({p[2]["hash"] for p in procs if p[2]}))
    for seed, flags, res, err in procs[1:]:
        if res is None:
            case.bad("an interpreter with other options does not get through what the first one does", options=flags, hash_seed=seed, error=err[-3000:])
    for k, u in enumerate(us):
        one = base["results"][k]
        for j, a in enumerate(one):
            it = u["items"][j] if len(one) == len(u["items"]) else {"op": "module"}
            op = it["op"]
            count(case, op, a)
            case.ev((u["source"], j, op, it.get("data"), a), trivial=len(a) < 14, sample=lambda: {"type": it.get("type", op)[:120], "outcome": a[:200], "processes": [(s, *f) for s, f, _, _ in procs]})
            for seed, flags, res, _ in procs[1:]:
                b = res["results"][k][j] if j < len(res["results"][k]) else "nothing"
                if a != b:
                    try:
                        data = short(pickle.loads(it["data"]), 1500)
                    except Exception:
                        data = repr(it.get("data"))
                    case.bad(f"{op}: the outcome depends on the interpreter process", module=u["source"], type=it.get("type"), input=data, settings=it.get("glob"), record=it.get("record"),
                             first=f"hash seed {procs[0][0]}: {a}", other=f"hash seed {seed} {flags}: {b}")


def count(case, op, a):
    if op == "schema":
        case.count("schemas")
    elif op == "registries":
        case.count("registries", bool(a))
    elif op != "module":
        case.count("conversions")
        case.count("accepted" if a.startswith("returned") else "refused" if a.startswith("refused") else "raised another exception")
        if a.startswith("returned") and a.count(":") > 3:
            case.count("results with several keys")
        if " extra [" in a:
            case.count("extra keys reported")
