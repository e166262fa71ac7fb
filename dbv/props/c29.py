"""Two copies of a module full of types: as it is, and with unrelated annotations all over its type expressions."""

import ast
import decimal
import io
import pathlib
import pickle
import random
import sys
import types

from databind.core import Setting
from databind.json import dump, load

from dbv import gen
from dbv.common import *
from dbv.foreign import foreign
from dbv.util import ctx_path

ID = "C29"
CASES = {"quick": 5000, "thorough": 160000}
RULE = "one conversion under a type with and without unrelated annotations, or with settings outside and inside of an optional type; trivial if nothing was annotated"
MINIMA = {"annotations inserted": 8000, "load accepted": 5000, "load refused": 6000, "dump accepted": 5000, "dump refused": 1000, "annotated union member": 300, "annotated optional's inside": 80, "annotated field": 1500,
          "several at once": 1500, "settings moved into an optional": 250, "annotated type argument of a base": 50, "inside of another annotation": 300, "null under moved settings": 200, "unhashable metadata": 800}


class Odd:
    """Metadata with ideas of its own."""

    priority = 100
    enabled = False
    aliases = ("zzz",)

    def __eq__(self, other):
        raise RuntimeError("compared")

    __hash__ = None

    def __bool__(self):
        raise RuntimeError("asked for its truth")


class Plain:
    pass


METAS = {"'doc'": 0, "42": 0, "None": 0, "('a', 1)": 0, "[1, 2]": 1, "{'a': 1}": 1, "M_ODD": 1, "M_PLAIN": 0, "M_CLASS": 0, "M_OBJ": 0, "M_FN": 0, "int": 0, "t.Any": 0, "t.List[int]": 0, "Priority.LOW": 0, "M_SETTING": 0, "Strict": 0, "ExtraKeys": 0, "Alias": 0,
         "1.5": 0, "b'x'": 0, "''": 0, "Ellipsis": 0, "False": 0, "M_ENUM": 0, "{1}": 1, "M_NAMESAKE_Required": 0, "M_NAMESAKE_Flattened": 0, "M_NAMESAKE_Alias": 0, "M_NAMESAKE_Strict": 0, "M_NAMESAKE_ExtraKeys": 0, "M_NAMESAKE_Remainder": 0, "M_NAMESAKE_Union": 0, "M_NAMESAKE_Precision": 0, "M_NAMESAKE_DateFormat": 0, "M_NAMESAKE_SerializeDefaults": 0, "t.Optional[str]": 0}


class OwnSetting(Setting):
    """A setting nobody asks for."""

    priority = 0


import enum


class SomeEnum(enum.Enum):
    A = 1


NS = {"M_ODD": Odd(), "M_PLAIN": Plain(), "M_CLASS": Plain, "M_OBJ": object(), "M_FN": lambda *a: None, "M_SETTING": OwnSetting(), "M_ENUM": SomeEnum.A}


def namesake(name):
    """Called like a setting, and with its attributes, but of another library."""
    return type(name, (), {"enabled": name != "Required", "aliases": ("zzz",), "priority": 3, "members": {}, "style": "flat", "formats": (), "recorder": None, "__module__": "another.library"})()


NS.update({m: namesake(m.rpartition("_")[2]) for m in METAS if m.startswith("M_NAMESAKE")})
SETTINGS = {"Strict", "ExtraKeys", "SerializeDefaults", "DateFormat", "Precision"}


def is_t(e, *names):
    """Whether the expression is one of the names, from typing or on its own."""
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("t", "te", "typing") and e.attr in names


class Decorate:
    def __init__(self, case, future):
        self.case, self.r, self.future = case, case.rng, future
        self.n = 0
        self.alias = False  # Whether the type has a name that annotations use, perhaps as text; see FINDINGS.
        self.text = future  # Whether the annotations are text; see FINDINGS.
        self.p = self.r.choice([0.15, 0.3, 0.6, 1.0])

    def metas(self):
        k = self.r.choice([1, 1, 1, 2, 3])
        if k > 1:
            self.case.count("several at once")
        out = [self.r.choice(list(METAS)) for _ in range(k)]
        if self.alias:
            out = [m for m in out if not METAS[m]] or ["'alias'"]
        out = ["'odd'" if m == "M_ODD" and self.text else m for m in out]
        for m in out:
            if METAS.get(m):
                self.case.count("unhashable metadata")
        self.case.count("annotations inserted", k)
        self.n += k
        return [ast.parse(m, mode="eval").body for m in out]

    def wrap(self, e):
        if self.r.random() >= self.p:
            return e
        return ast.Subscript(ast.Attribute(ast.Name("t"), "Annotated"), ast.Tuple([e, *self.metas()]))

    def type(self, e, outer=True):
        """The type expression with annotations at random places."""
        before = self.n
        if isinstance(e, ast.Constant):
            if type(e.value) is str:
                # A string annotation.
                old, self.text = self.text, True
                out = ast.Constant(ast.unparse(self.type(ast.parse(e.value, mode="eval").body, outer)))
                self.text = old
                return out
            return e
        if isinstance(e, ast.Subscript):
            if is_t(e.value, "ClassVar", "Generic", "Protocol"):
                return e
            if is_t(e.value, "Literal"):
                return self.wrap(e) if outer else e
            items = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if is_t(e.value, "Annotated"):
                inner = self.type(items[0])
                more = list(items[1:])
                if self.r.random() < self.p:
                    self.case.count("inside of another annotation")
                    for m in self.metas():
                        more.insert(self.r.randrange(len(more) + 1), m)
                e = ast.Subscript(e.value, ast.Tuple([inner, *more]))
            elif items or not isinstance(e.slice, ast.Tuple):
                new = [self.type(x) if not (isinstance(x, ast.Constant) and x.value is Ellipsis) else x for x in items]
                if self.n > before and is_t(e.value, "Optional"):
                    self.case.count("annotated optional's inside")
                if self.n > before and is_t(e.value, "Union"):
                    self.case.count("annotated union member")
                e = ast.Subscript(e.value, ast.Tuple(new) if isinstance(e.slice, ast.Tuple) else new[0])
            return self.wrap(e) if outer else e
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.wrap(e) if outer else e
        return e

    def module(self, src):
        tree = ast.parse(src)
        for st in tree.body:
            if isinstance(st, ast.ClassDef):
                new = []
                for b in st.bases:
                    k, self.text = self.n, False
                    new.append(self.type(b, outer=False) if isinstance(b, ast.Subscript) else b)
                    if self.n > k:
                        self.case.count("annotated type argument of a base")
                st.bases = new
                self.text = self.future
                for a in st.body:
                    if isinstance(a, ast.AnnAssign):
                        k = self.n
                        a.annotation = self.type(a.annotation)
                        if self.n > k:
                            self.case.count("annotated field")
            elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Subscript) and is_t(st.value.value, "Annotated"):
                self.alias = True
                st.value = self.type(st.value)
                self.alias = False
            elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and is_t(st.value.func, "TypedDict"):
                d = next((x for x in st.value.args if isinstance(x, ast.Dict)), None)
                if d is not None:
                    d.values = [self.type(x) for x in d.values]
        return ast.unparse(ast.fix_missing_locations(tree))

    def expr(self, s):
        self.text = False
        return ast.unparse(ast.fix_missing_locations(ast.Expression(self.type(ast.parse(s, mode="eval").body))))


class MoveIn(ast.NodeTransformer):
    """Settings around an optional type go to the type inside of it."""

    def __init__(self, case):
        self.case, self.n = case, 0

    def visit_Subscript(self, e):
        e = self.generic_visit(e)
        if not is_t(e.value, "Annotated"):
            return e
        inner, more = e.slice.elts[0], e.slice.elts[1:]
        if not (isinstance(inner, ast.Subscript) and (is_t(inner.value, "Optional") or is_t(inner.value, "Union") and len(inner.slice.elts) == 2 and any(isinstance(x, ast.Constant) and x.value is None for x in inner.slice.elts))):
            return e
        moved = [m for m in more if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in SETTINGS]
        rest = [m for m in more if m not in moved]
        items = inner.slice.elts if isinstance(inner.slice, ast.Tuple) else [inner.slice]
        i = next(k for k, x in enumerate(items) if not (isinstance(x, ast.Constant) and x.value is None))
        X = items[i]
        if not moved or isinstance(X, ast.Subscript) and is_t(X.value, "Annotated") or isinstance(X, ast.Constant):
            return e
        self.n += 1
        self.case.count("settings moved into an optional")
        X = ast.Subscript(ast.Attribute(ast.Name("t"), "Annotated"), ast.Tuple([X, *moved]))
        items[i] = X
        inner = ast.Subscript(inner.value, ast.Tuple(items) if isinstance(inner.slice, ast.Tuple) else X)
        return ast.Subscript(e.value, ast.Tuple([inner, *rest])) if rest else inner


class Transfer:
    """Values of one module's classes as values of its copy's."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, v):
        b, a = self.b, self.a

        class U(pickle.Unpickler):
            def find_class(self, module, name):
                if module == a.__name__:
                    x = b
                    for p in name.split("."):
                        x = getattr(x, p)
                    return x
                return super().find_class(module, name)

            def persistent_load(self, pid):
                return kept[pid]

        kept = []

        class P(pickle.Pickler):
            def persistent_id(self, x):
                # (Pickling takes paths apart, and what is put together can be another one; a container with a NaN equals
                # another one only if the NaN is the same object, like that of a default.)
                if isinstance(x, pathlib.PurePath) or type(x) in (decimal.Decimal, float) and x != x:
                    kept.append(x)
                    return len(kept) - 1
                return None

        buf = io.BytesIO()
        P(buf).dump(v)
        buf.seek(0)
        return U(buf).load()


def run(case):
    r = case.rng
    move = r.random() < 0.2
    if move:
        prof = gen.Profile(comps=["opt", "ann", "dc", "list", "dc", "td", "tuple"], leaves=["int", "float", "str", "bool", "date", "datetime", "decimal", "any"], metas=r.random() < 0.3)
        u = gen.Universe(r, prof)
        case.cleanup.append(u.b.close)
        n = opt_ann(u, r, 3) if r.random() < 0.7 else u.struct(2)
        case.note(module=u.b.source(), types=n.expr)
        (T,) = u.build(n)
    else:
        u, (n,), (T,) = gen.make(case, gen.Profile(disjoint=r.random() < 0.5, comps=gen.COMPS + ["union", "opt"]))
    A = sys.modules[u.b.name]
    src = case.notes["module"]
    if move:
        d = MoveIn(case)
        tree = d.visit(ast.parse(src))
        src2 = ast.unparse(ast.fix_missing_locations(tree))
        expr2 = ast.unparse(ast.fix_missing_locations(d.visit(ast.parse(n.expr, mode="eval"))))
    else:
        d = Decorate(case, u.b.future)
        src2, expr2 = d.module(src), d.expr(n.expr)
    if not d.n:
        raise Skip("nothing to annotate" if not move else "no settings around an optional type")
    B = types.ModuleType(u.b.name + "_annotated")
    sys.modules[B.__name__] = B
    case.cleanup.append(lambda: sys.modules.pop(B.__name__, None))
    move_ab = Transfer(A, B)
    case.note(annotated_module=src2, annotated_type=expr2)
    slots = []
    B.__dict__.update(NS, _D=[None] * len(u.b.defaults) if u.b.late_defaults else u.b.defaults)
    late = {i for i, _ in u.b.late_defaults}
    D = [None if i in late else x for i, x in enumerate(u.b.defaults)]
    B.__dict__["_D"] = D
    import copy

    B.__dict__["_mk"] = lambda i: copy.deepcopy(D[i])
    try:
        exec(compile(src2, f"<{B.__name__}>", "exec"), B.__dict__)
        T2 = eval(compile(expr2, f"<{B.__name__}>", "eval"), B.__dict__)
    except TypeError as exc:
        raise Skip(f"Python refuses the annotations: {str(exc)[:60]}")
    for i in late:
        D[i] = move_ab(u.b.defaults[i])
    ab = lambda v: move_ab(v)
    for k in range(10):
        env = M.Env(r.choice(gen.GLOBS))
        if k < 6:
            kind, p = payload(case, n, env)
            if move and r.random() < 0.15:
                p = None
            if move and p is None:
                case.count("null under moved settings")
            try:
                pickle.dumps(p)
            except Exception:
                continue
            compare(case, n, src2, load, p, p, T, T2, env, ab, "load")
        else:
            try:
                with M.Sabotage(r.choice([1, 2, 3, 4, 6, 99, 99]), lambda node: foreign(r)) as sab:
                    v = n.gen(r, env)
                v2 = ab(v)
            except Exception:
                case.count("skipped: value cannot be built")
                continue
            if move and v is None:
                case.count("null under moved settings")
            compare(case, n, src2, dump, v, v2, T, T2, env, ab, "dump")


def opt_ann(u, r, d):
    """A type with settings around optional types."""
    def one(d):
        k = r.random()
        if d == 0 or k < 0.3:
            return u.leaf()
        if k < 0.5:
            return M.Coll("List", one(d - 1))
        if k < 0.6:
            return u.struct(1)
        inner = one(d - 1)
        while isinstance(inner, (M.Opt, M.Ann)):
            inner = one(d - 1)
        kinds = r.sample(["strict", "extra", "serdef"], r.choice([1, 1, 2]))
        return M.Ann(M.Opt(inner, r.randrange(2)), {k: r.random() < 0.5 for k in kinds}, r.choice([["'doc'"], ["'doc'", "7"]]) if r.random() < 0.4 else [])

    n = one(d)
    if r.random() < 0.5:
        fs = [u.field(0, plain=True, node=x) for x in (n, one(1))]
        n = M.Struct(u.b, fs, "dc")
    return n


def compare(case, n, src2, fn, a, b, T, T2, env, ab, what):
    case.note(payload=a, settings=env.glob, direction=what)
    oa = observe(fn, a, T, **opts(env))
    ob = observe(fn, b, T2, **opts(env))
    case.ev((n.expr, src2, what, canon(a), env.glob), sample=lambda: {"type": n.expr[:120], "annotated": case.notes["annotated_type"][:160], "input": short(a, 80), "outcome": repr(ob)[:120]})
    case.count(f"{what} {'accepted' if oa.ok else 'refused' if oa.refused else 'leaked'}")
    sets = "set{" in canon(a) or "Set" in n.expr + src2
    if oa.ok != ob.ok or oa.refused != ob.refused:
        case.bad(f"{what}: annotations that have nothing to do with it change the outcome", without=repr(oa), with_annotations=repr(ob))
    if oa.ok:
        want = oa.value
        if what == "load":
            try:
                want = ab(want)
            except Exception:
                case.count("result cannot be compared")
                return
        got = ob.value
        if what == "dump" and sets:
            want, got = unorder(want), unorder(got)  # (The copy of a set has an order of its own.)
        if canon(want) != canon(got) and not deep_eq(want, got, ordered=True):
            case.bad(f"{what}: annotations that have nothing to do with it change the result", without=short(oa.value, 800), with_annotations=short(ob.value, 800))
    elif oa.refused and canon(ctx_path(oa.exc)) != canon(ctx_path(ob.exc)) and not sets:
        case.bad(f"{what}: annotations that have nothing to do with it change the place of the error", without=f"{ctx_path(oa.exc)} {oa!r}", with_annotations=f"{ctx_path(ob.exc)} {ob!r}")


def unorder(x):
    if isinstance(x, list):
        return sorted(map(unorder, x), key=canon)
    if isinstance(x, dict):
        return {k: unorder(v) for k, v in x.items()}
    return x


def _unhashable():
    ns = dict(vars(sys.modules["typing"]), ODD=Odd(), dataclass=__import__("dataclasses").dataclass)
    m = types.ModuleType("dbvc29_probe")
    sys.modules[m.__name__] = m
    try:
        m.__dict__.update(ns, __name__=m.__name__)
        exec("from __future__ import annotations\n@dataclass\nclass S:\n    a: Annotated[int, ODD]\n", m.__dict__)
        o = observe(load, {"a": 1}, m.S)
    finally:
        sys.modules.pop(m.__name__)
    return None if o.ok else f"got {o!r}"


FINDINGS = {"unhashable-name-in-string-annotation": _unhashable}
