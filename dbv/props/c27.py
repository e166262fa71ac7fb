"""Decimals against the decimal module, with and without a precision, under all kinds of ambient decimal contexts."""

import dataclasses
import decimal
import json
import typing as t
from decimal import Decimal

from databind.core import Precision, Priority, Strict
from databind.json import dump, dumps, get_object_mapper, load, loads
from databind.json.converters import DecimalConverter

from dbv.common import *

ID = "C27"
CASES = {"quick": 6000, "thorough": 300000}
RULE = "a decimal or payload, a precision or none, a strictness and an ambient context; trivial if the text is a small integer and no precision is set"
MINIMA = {"survived": 6000, "rounded": 1500, "precision kept it": 800, "precision refused it": 300, "number read": 1500, "number refused as strict": 1500, "malformed refused": 3000, "hostile ambient context": 4000,
          "special value": 800, "subclass": 500}

ROUNDINGS = [decimal.ROUND_CEILING, decimal.ROUND_DOWN, decimal.ROUND_FLOOR, decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP, decimal.ROUND_UP, decimal.ROUND_05UP]
SIGNALS = [decimal.Clamped, decimal.InvalidOperation, decimal.DivisionByZero, decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Overflow, decimal.Underflow, decimal.FloatOperation]
# Told apart from any context of the library's or of ours: what decides about malformed text.
EXACT = decimal.Context(prec=decimal.MAX_PREC, Emin=decimal.MIN_EMIN, Emax=decimal.MAX_EMAX, traps=[decimal.InvalidOperation])


class Money(Decimal):
    pass


class Priced(Decimal):
    """Has a constructor of its own, which takes a decimal."""

    def __new__(cls, value="0"):
        return super().__new__(cls, value)

    def __repr__(self):
        return f"Priced({str(self)!r})"


def key(d):
    return (type(d).__name__, d.as_tuple())


def some(r):
    k = r.random()
    if k < 0.12:
        return Decimal(r.choice(["NaN", "-NaN", "NaN123", "Infinity", "-Infinity", "0", "-0", "0E-20", "-0E+7", "0.000", "-0.00"]))
    if k < 0.3:
        return Decimal(r.randrange(-1000, 1000)).scaleb(-r.randrange(4), EXACT)
    if k < 0.45:
        return Decimal((r.randrange(2), tuple(r.randrange(10) for _ in range(r.randrange(1, 60) if r.random() < 0.95 else r.randrange(60, 1200))), r.randrange(-40, 40)))
    if k < 0.6:
        # Halfway between two, and next to it.
        n = r.randrange(1, 10 ** r.randrange(1, 8))
        return Decimal(f"{r.choice(['', '-'])}{n}.{r.choice(['5', '50', '500000001', '49999999', '05', '95', '9999995', '0', '00', '1'])}")
    if k < 0.72:
        return Decimal((r.randrange(2), (r.randrange(1, 10), r.randrange(10)), r.choice([-1, 1]) * r.choice([10, 300, 6143, 10**5, 999997, 10**6, 10**9, 10**15])))
    return Decimal((r.randrange(2), tuple(r.randrange(10) for _ in range(r.randrange(1, 12))), r.randrange(-12, 5)))


MALFORMED = ["", " ", "abc", "1.2.3", "1,5", "--1", "+-1", "0x10", "1e", "e5", "1e5.5", "NaN1x", "Inf1", "infinit", ".", "-", "1/2", "1 000", "１．x", "None", "1e+", "1__", "∞", "true", "[1]", "12a", "$5", "1.0\x00", "1d5"]


def text_of(r, d):
    """A text that denotes *d*, in the many ways there are."""
    s = str(d)
    k = r.random()
    if k < 0.5:
        return s
    if not d.is_finite():
        return r.choice([s.lower(), s.upper(), s.replace("Infinity", "inf"), s.replace("Infinity", "INF")])
    if k < 0.6:
        return s.lower()
    if k < 0.7 and not s.startswith("-"):
        return "+" + s
    if k < 0.85:
        sign, digits, exp = d.as_tuple()
        return ("-" if sign else "") + "".join(map(str, digits)) + ("E" if r.random() < 0.5 else "e") + (f"{exp:+d}" if r.random() < 0.5 else str(exp))
    sign, digits, exp = d.as_tuple()
    return ("-" if sign else "") + "0" * r.randrange(3) + "".join(map(str, digits)) + f"E{exp}"


def exact(p):
    """The number a payload denotes."""
    return Decimal(p, EXACT)


def make_precision(r):
    kw = {}
    if r.random() < 0.8:
        kw["prec"] = r.choice([1, 1, 2, 3, 4, 5, 6, 8, 10, 15, 28, 34, 50, 100])
    if r.random() < 0.6:
        kw["rounding"] = r.choice(ROUNDINGS)
    if r.random() < 0.15:
        kw["Emin"] = -r.choice([0, 0, 1, 2, 5, 95, 6143])
    if r.random() < 0.15:
        kw["Emax"] = r.choice([0, 0, 1, 2, 5, 96, 6144])
    if r.random() < 0.1:
        kw["clamp"] = 1
    if r.random() < 0.1:
        kw["capitals"] = r.choice([0, 1])
    return kw


def rounded(p, kw):
    """[what the payload's number is with the given precision], [] if that does not exist."""
    full = dict(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999, clamp=0)
    full.update({k: v for k, v in kw.items() if k != "capitals"})
    c = decimal.Context(**full, capitals=1, flags=[], traps=[decimal.InvalidOperation, decimal.Overflow])
    try:
        return [c.create_decimal(exact(p))]
    except decimal.DecimalException:
        return []


def ambient(r):
    return decimal.Context(prec=r.choice([1, 2, 5, 28]), rounding=r.choice(ROUNDINGS), Emin=r.choice([0, -10, -999999]), Emax=r.choice([0, 10, 999999]), capitals=r.choice([0, 1, 1]), clamp=r.choice([0, 1]),
                           flags=r.sample(SIGNALS, r.randrange(3)), traps=r.sample(SIGNALS, r.randrange(len(SIGNALS) + 1)))


WRAPS = [("{}", lambda T: T, lambda x: x, lambda x: x), ("List[{}]", lambda T: t.List[T], lambda x: [x], lambda x: x[0]), ("Optional[{}]", lambda T: t.Optional[T], lambda x: x, lambda x: x),
         ("Dict[str, {}]", lambda T: t.Dict[str, T], lambda x: {"k": x}, lambda x: x["k"])]


def run(case):
    r = case.rng
    T0 = r.choice([Decimal, Decimal, Decimal, Decimal, Money, Priced])
    if T0 is not Decimal:
        case.count("subclass")
    kw = make_precision(r) if r.random() < 0.5 else None
    strict = r.choice([None, None, True, False, False])
    mapper = get_object_mapper()
    call, anns = [], []
    if kw is not None:
        p = Precision(**kw)
        place = r.choice(["annotation", "annotation", "call", "mapper", "per-type"])
        {"annotation": anns.append, "call": call.append, "mapper": mapper.settings.add_global, "per-type": lambda s: mapper.settings.add_local(T0, s)}[place](p)
        if r.random() < 0.2:
            mapper.settings.add_global(Precision(prec=1, rounding=decimal.ROUND_DOWN, priority=Priority.LOW))
    default_lenient = strict is None and r.random() < 0.1
    if default_lenient:
        # A converter that is not strict unless told so.
        mapper.module.register(DecimalConverter(strict_by_default=False), first=True)
    if strict is not None:
        s = Strict(strict)
        {"annotation": anns.append, "call": call.append, "mapper": mapper.settings.add_global}[r.choice(["annotation", "call", "mapper"])](s)
    lenient_ = strict is False or default_lenient
    name, wrap, put, take = r.choice(WRAPS)
    T = wrap(t.Annotated[(T0, *anns)] if anns else T0)
    rec = r.random() < 0.2
    if rec:
        cls = dataclasses.make_dataclass("Rec", [("x", T)])
        T, put0, take0 = cls, put, take
        wrapv, wrapp, take = (lambda x: cls(put0(x))), (lambda x: {"x": put0(x)}), (lambda x: take0(x["x"] if isinstance(x, dict) else x.x))
    else:
        wrapv = wrapp = put
    ctx = ambient(r) if r.random() < 0.5 else None
    case.note(type=name.format(T0.__name__) + (" in a record" if rec else ""), precision=kw, strict=strict, lenient_converter=default_lenient, ambient=repr(ctx))

    def do(fn, *args):
        if ctx is None:
            return observe(fn, *args)
        case.count("hostile ambient context")
        if r.random() < 0.1:
            # As the documentation of the decimal module suggests it before threads are started.
            case.count("default context does not trap")
            decimal.DefaultContext.traps[decimal.InvalidOperation] = False
            try:
                with decimal.localcontext(ctx):
                    return observe(fn, *args)
            finally:
                decimal.DefaultContext.traps[decimal.InvalidOperation] = True
        with decimal.localcontext(ctx):
            return observe(fn, *args)

    de = lambda p: do(mapper.deserialize, wrapp(p), T, None, list(call))
    for _ in range(4):
        d = some(r)
        v = T0(d) if T0 is not Decimal else d
        trivial = kw is None and d.is_finite() and d.adjusted() < 2 and d.as_tuple().exponent == 0
        if not d.is_finite():
            case.count("special value")
        o = do(mapper.serialize, wrapv(v), T, None, list(call))
        case.ev(("w", T0.__name__, repr(kw), name, str(d), ctx is None), trivial=trivial, sample=lambda: {"value": str(d), "precision": kw, "output": repr(o)[:120]})
        if not o.ok:
            case.bad("a decimal could not be serialized", value=str(d), got=repr(o))
        w = take(o.value)
        if type(w) is not str or w.lower() != str(d).lower() or exact(w).as_tuple() != d.as_tuple():
            case.bad("a decimal is not written as its text", value=str(d), got=repr(w))
        if kw is None:
            back = de(w)
            case.count("survived")
            if not back.ok or key(take(back.value)) != key(v):
                case.bad("a decimal did not survive serialization and deserialization", value=str(d), text=w, got=repr(back))
            if ctx is None and not call and mapper.settings.global_settings == [] and not default_lenient:
                # And the same as text.
                k = observe(dumps, wrapv(v), T)
                b = observe(loads, k.value, T) if k.ok else k
                if not b.ok or key(take(b.value)) != key(v):
                    case.bad("a decimal did not survive as JSON text", value=str(d), got=repr(b))
    for _ in range(6):
        k = r.random()
        if k < 0.5:
            p = text_of(r, some(r))
        elif k < 0.75:
            p = r.choice([r.randrange(-(10**6), 10**6), r.randrange(-(10**40), 10**40), r.random(), r.uniform(-1e6, 1e6), 1e300, 5e-324, -0.0, 0.1, 2.5, 10**18, float("inf"), float("-inf"), float("nan"), 0, 1])
        else:
            p = r.choice(MALFORMED)
        if lenient_ is False and type(p) is bool:
            continue
        o = de(p)
        isnum = not isinstance(p, str)
        case.ev(("r", T0.__name__, repr(kw), strict, name, repr(p), ctx is None), trivial=kw is None and p in range(-99, 100), sample=lambda: {"payload": repr(p), "precision": kw, "strict": strict, "got": repr(o)[:120]})
        if isnum and not lenient_:
            case.count("number refused as strict")
            if not o.refused:
                case.bad("a number was not rejected although the conversion is strict", payload=p, got=repr(o))
            continue
        try:
            e = exact(p)
        except decimal.DecimalException:
            case.count("malformed refused")
            if not o.refused:
                case.bad("malformed text was not rejected", payload=p, got=repr(o))
            continue
        if e.is_snan():
            continue
        if kw is not None and isinstance(p, str) and any(c in p for c in "_ "):
            continue  # (The decimal module takes digit separators in one case, but not in the other.)
        want = [e] if kw is None else rounded(p, kw)
        if not want:
            # Out of the range of exponents, or more diagnostic digits than a NaN may have: not that number, anyway.
            case.count("precision refused it")
            if not o.refused:
                case.bad("a number that does not exist with the precision set was not rejected", payload=p, got=repr(o))
            continue
        if isnum:
            case.count("number read")
        case.count("precision kept it" if kw is not None and want[0] == e else "rounded" if kw is not None else "exact")
        if not o.ok:
            case.bad("a payload that denotes a number was rejected", payload=p, expected=str(want[0]), got=repr(o))
        got = take(o.value)
        if isnum and kw is not None and "clamp" in kw and type(got) is T0 and got == want[0] and got.is_signed() == want[0].is_signed():
            continue  # The same number. (The decimal module does not clamp the exponent of every number it makes of an integer.)
        if key(got) != (T0.__name__, want[0].as_tuple()):
            case.bad("the payload's number, rounded by the precision set, is another one" if kw is not None else "the payload's number is another one", payload=p, expected=str(want[0]), got=repr(take(o.value)))
    for p in r.sample([None, True, [], {}, ["1"], b"1", (0, (1,), 0)], 2):
        if p is True and lenient_ or p is None and name.startswith("Opt"):
            continue  # (Whether a truth value is a number is not said.)
        o = de(p)
        if not o.refused:
            case.bad("neither text nor a number, but not rejected", payload=p, got=repr(o))
