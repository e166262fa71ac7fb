"""Lists of date formats, each of them alone as the reference; text formats are also read and written by a reader of our own."""

import dataclasses
import datetime as D
import re
import typing as t

from databind.core import DateFormat, Priority
from databind.json import dump, get_object_mapper, load
from nr.date import date_format, datetime_format, format_set, time_format
from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME

from dbv.common import *

ID = "C26"
CASES = {"quick": 4500, "thorough": 200000}
RULE = "a list of formats, a kind and a value or text; trivial if no format of the list applies to the kind"
MINIMA = {"written": 5000, "not written, none applies": 500, "read": 8000, "refused, none accepts": 8000, "refused, none applies": 1000, "not the first listed": 800, "recovered": 700, "iso 8601 without setting": 500, "asked for other kinds before": 400,
          "text format": 2000, "format object": 2000, "format set": 800, "named set": 800, "read by a later format": 800}

KINDS = {D.date: (date_format, "date"), D.time: (time_format, "time"), D.datetime: (datetime_format, "datetime")}
DATE, TIME = "Ymd", "HMSfz"
DIRECTIVE = {"Y": r"[0-9]{4}", "m": "[0-9]{2}", "d": "[0-9]{2}", "H": "[0-9]{2}", "M": "[0-9]{2}", "S": "[0-9]{2}", "f": "[0-9]+", "z": "(?:Z|[-+][0-9]{2}(?::?[0-9]{2})?)"}
FIELD = {"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second", "f": "microsecond", "z": "tzinfo"}
REGEX = {D.date: ["%Y(-%m)?", "%Y(%m%d)?", "%d\\.%m\\.%Y"], D.time: ["%H(:%M(:%S)?)?%z?", "%H%M%z?"], D.datetime: ["%Y-%m-%d( %H:%M(:%S(\\.%f)?)?)?%z?", "%Y%m%dT%H(%M)?"]}


# -- Text formats ------------------------------------------------------------------------------------------------


def tokens(fmt):
    """[(directive or None, text)], or None if it names an unknown directive."""
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            if fmt[i + 1] not in DIRECTIVE:
                return None
            out.append((fmt[i + 1], None))
            i += 2
        else:
            out.append((None, fmt[i]))
            i += 1
    return out


def applies(fmt, kind):
    toks = tokens(fmt)
    if toks is None:
        return False
    ok = {D.date: DATE, D.time: TIME, D.datetime: DATE + TIME}[kind]
    return all(d is None or d in ok for d, _ in toks)


def write(fmt, v):
    out = ""
    for d, s in tokens(fmt):
        if d is None:
            out += s
        elif d == "z":
            out += M.iso_tz(v)
        elif d == "f":
            out += M.iso_frac(v.microsecond)
        else:
            out += str(getattr(v, FIELD[d])).zfill(4 if d == "Y" else 2)
    return out


def read(fmt, kind, text):
    """The value, or None."""
    toks = tokens(fmt)
    m = re.fullmatch("".join(f"({DIRECTIVE[d]})" if d else re.escape(s) for d, s in toks), text)
    if not m:
        return None
    kw = dict(year=1900, month=1, day=1)
    for d, s in zip([d for d, _ in toks if d], m.groups()):
        if d == "z":
            if s == "Z":
                kw["tzinfo"] = D.timezone.utc
            else:
                q = s.replace(":", "")
                minutes = int(q[1:3]) * 60 + int(q[3:5] or 0)
                if minutes >= 24 * 60:
                    return None
                kw["tzinfo"] = D.timezone(D.timedelta(minutes=-minutes if q[0] == "-" else minutes))
        elif d == "f":
            kw["microsecond"] = int(s[:6].ljust(6, "0"))
        else:
            kw[FIELD[d]] = int(s)
    try:
        v = D.datetime(**kw)
    except ValueError:
        return None
    return v if kind is D.datetime else v.date() if kind is D.date else v.timetz()


class One:
    """One applicable format of one kind."""

    def __init__(self, kind, text=None, obj=None, source=0):
        self.kind, self.text, self.obj, self.source = kind, text, obj, source
        if obj is None:
            self.obj = KINDS[kind][0].compile(text)

    def write(self, v):
        if self.text is not None:
            return write(self.text, v)
        return getattr(self.obj, "format_" + KINDS[self.kind][1])(v)

    def read(self, s):
        # (Fractions of more than six digits are the format library's own business; see FINDINGS.)
        if self.text is not None and s.isascii() and "\n" not in s and not ("%f" in self.text and re.search("[0-9]{7}", s)):
            return read(self.text, self.kind, s)
        try:
            return getattr(self.obj, "parse_" + KINDS[self.kind][1])(s)
        except ValueError:
            return None


SETS = {".ISO_8601": ISO_8601, ".JAVA_OFFSET_DATETIME": JAVA_OFFSET_DATETIME}


LITERALS = [" ", "+00:00", "-00:00", "Z", " Z", "0", "00", ".000", "\t", " at", "x", "+", "é", "[", "T", "-", "UTC", "  "]


def text_format(r, kind=None):
    f = bare_format(r, kind)
    # Text about the directives: whitespace at an end, what looks like a zone or a number, words.
    if r.random() < 0.12:
        # (A leading "." makes the text the name of a set.)
        f = r.choice(LITERALS).lstrip(".") + f
    if r.random() < 0.15:
        f = f + r.choice(LITERALS)
    return f


def bare_format(r, kind=None):
    kind = kind or r.choice(list(KINDS))
    if r.random() < 0.06:
        return r.choice(["%q", "%Y-%j", "%%Y", "%y", "x%", "now", "%Y %", "%H:%M %p"])
    sep = lambda s: s.join
    date = r.choice([["%Y", "%m", "%d"], ["%d", "%m", "%Y"], ["%m", "%d", "%Y"], ["%Y", "%m"], ["%Y"], ["%m", "%d"]])
    time = r.choice([["%H", "%M", "%S"], ["%H", "%M"], ["%H"], ["%M", "%H"]])
    ds = sep(r.choice(["-", "/", ".", "", " ", "_", "年", "(", "+"]))(date)
    ts = sep(r.choice([":", ".", "", "h", "?"]))(time)
    if len(time) == 3 and r.random() < 0.6:
        ts += r.choice([".", ",", " "]) + "%f"
    if r.random() < 0.4:
        ts += r.choice(["", " "]) + "%z"
    if kind is D.date:
        return ds
    if kind is D.time:
        return ts
    return r.choice([ds + "T" + ts, ds + " " + ts, ts + " " + ds if not ts.endswith("%f") else ts + " on " + ds, ds + r.choice(["", "T%H"])])


def make_item(case, kind):
    """(item of the DateFormat, text to show, the formats it has for a kind)"""
    r = case.rng
    k = r.random()
    other = kind if r.random() < 0.55 else r.choice(list(KINDS))
    if k < 0.45:
        f = text_format(r, other)
        case.count("text format")
        return f, repr(f), lambda kd: [One(kd, f)] if applies(f, kd) else []
    if k < 0.7:
        case.count("format object")
        if r.random() < 0.4:
            o = KINDS[other][0].compile(r.choice(REGEX[other]), regex_mode=True)
            return o, repr(o), lambda kd: [One(kd, obj=o)] if kd is other else []
        f = text_format(r, other)
        while not applies(f, other):
            f = text_format(r, other)
        o = KINDS[other][0].compile(f)
        return o, repr(o), lambda kd: [One(kd, f)] if kd is other else []
    if k < 0.85:
        case.count("named set")
        name = r.choice(list(SETS))
        s = SETS[name]
        return name, repr(name), lambda kd: [One(kd, obj=o) for o in getattr(s, KINDS[kd][1] + "_formats")]
    case.count("format set")
    if r.random() < 0.2:
        s = r.choice(list(SETS.values()))
        return s, s.name, lambda kd: [One(kd, obj=o) for o in getattr(s, KINDS[kd][1] + "_formats")]
    lists = {}
    for kd in KINDS:
        fs = []
        for _ in range(r.choice([0, 1, 1, 2])):
            f = text_format(r, kd)
            if applies(f, kd):
                fs.append(f)
        lists[kd] = fs
    s = format_set("own", None, *[[KINDS[kd][0].compile(f) for f in lists[kd]] for kd in KINDS])
    return s, f"format_set({lists[D.date]}, {lists[D.time]}, {lists[D.datetime]})", lambda kd: [One(kd, f) for f in lists[kd]]


ZONES = [None, None, D.timezone.utc, D.timezone(D.timedelta(hours=2)), D.timezone(D.timedelta(hours=-3, minutes=-30)), D.timezone(D.timedelta(minutes=-15)), D.timezone(D.timedelta(0), "X"), D.timezone(D.timedelta(hours=14))]


class Date(D.date):
    pass


class Time(D.time):
    pass


class Datetime(D.datetime):
    pass


def value(r, kind):
    v = plain_value(r, kind)
    if r.random() < 0.08:
        # Of a subclass, as date libraries have them.
        if kind is D.date:
            return Date(v.year, v.month, v.day)
        if kind is D.time:
            return Time(v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
        return Datetime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
    return v


def plain(v):
    if isinstance(v, D.datetime):
        return D.datetime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
    return D.date(v.year, v.month, v.day) if isinstance(v, D.date) else D.time(v.hour, v.minute, v.second, v.microsecond, v.tzinfo)


def plain_value(r, kind):
    y = r.choice([1, 99, 999, 1000, 1900, 1970, 2000, 2023, 9999, r.randrange(1, 9999)])
    d = D.date(y, r.randrange(1, 13), r.randrange(1, 29))
    if r.random() < 0.1:
        d = D.date(2024, 2, 29)
    if kind is D.date:
        return d
    tm = D.time(r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 0, 1, 10, 500000, 999999, 100, r.randrange(10**6)]), r.choice(ZONES))
    if kind is D.time:
        return tm
    if r.random() < 0.15:
        tm = D.time(0, 0, 0, 0, tm.tzinfo)
    return D.datetime.combine(d, tm)


def captures(fmt, v):
    """Whether the text format says everything about the value, without ambiguity."""
    toks = tokens(fmt)
    ds = [d for d, _ in toks if d]
    if len(set(ds)) != len(ds):
        return False
    need = set()
    if isinstance(v, D.date):
        need |= set("Ymd")
    if not (isinstance(v, D.date) and not isinstance(v, D.datetime)):
        need |= {"H"} | ({"M"} if v.minute else set()) | ({"S"} if v.second else set()) | ({"f"} if v.microsecond else set()) | ({"z"} if v.tzinfo is not None else set())
        if v.tzinfo is None and "z" in ds:
            return False
    if not need <= set(ds):
        return False
    for (a, _), (b, s) in zip(toks, toks[1:]):
        if a == "f" and (b in set("YmdHMS") or s and s.isdigit()):
            return False
    return True


def mutate(r, s):
    k = r.random()
    if not s or k < 0.15:
        return s + r.choice([" ", "0", "Z", "x", "\n", "+01:00", ":00", "-01"])
    i = r.randrange(len(s))
    if k < 0.45:
        return s[:i] + r.choice("0123456789-:TZ+. ٣") + s[i + 1 :]
    if k < 0.6:
        return s[:i] + s[i + 1 :]
    if k < 0.75:
        return s[:i] + r.choice("0129-: ") + s[i:]
    if k < 0.85:
        return r.choice([" ", "\t"]) + s
    return s[: r.randrange(len(s))]


WRAPS = [
    ("{}", lambda T: T, lambda x: x), ("List[{}]", lambda T: t.List[T], lambda x: [x]), ("Dict[str, {}]", lambda T: t.Dict[str, T], lambda x: {"k": x}), ("Optional[{}]", lambda T: t.Optional[T], lambda x: x),
    ("Tuple[int, {}]", lambda T: t.Tuple[int, T], None),
]


def run(case):
    r = case.rng
    kind = r.choice(list(KINDS))
    items = [make_item(case, kind) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    fs = []
    for i, (_, _, ones) in enumerate(items):
        for one in ones(kind):
            one.source = i
            fs.append(one)
    setting = DateFormat(*[x for x, _, _ in items])
    if r.random() < 0.08:
        # Without any setting.
        setting = None
        fs = [One(kind, obj=o) for o in getattr(ISO_8601, KINDS[kind][1] + "_formats")]
    place = "none" if setting is None else r.choice(["annotation", "annotation", "call", "mapper", "field", "per-type", "outer"])
    name, wrap, wv = r.choice(WRAPS)
    wv = wv or (lambda x: (7, x))
    wj = wv if wv is not WRAPS[-1][2] and name != "Tuple[int, {}]" else (lambda x: [7, x])
    inner = kind
    if place == "annotation":
        inner = t.Annotated[kind, setting] if r.random() < 0.7 else t.Annotated[kind, "note", setting, 3]
    elif r.random() < 0.15:
        inner = t.Annotated[kind, "note"]
    T = wrap(inner)
    if place == "field":
        T0 = wrap(t.Annotated[kind, setting])
        T = dataclasses.make_dataclass("Rec", [("x", T0)])
        wv0, wj0, cls = wv, wj, T
        wv = lambda x: cls(wv0(x))
        wj = lambda x: {"x": wj0(x)}
    elif place == "outer":
        name, wv, wj = "{}", (lambda x: x), (lambda x: x)
        T = t.Annotated[t.Optional[kind], setting] if r.random() < 0.5 else t.Annotated[t.Annotated[kind, "n"], setting]
    settings = [setting] if place == "call" else []
    mapper = get_object_mapper()
    if place == "mapper":
        mapper.settings.add_global(setting)
    elif place == "per-type":
        mapper.settings.add_local(kind, setting)
    fallback = None
    if setting is not None and r.random() < 0.15:
        # Another one in force somewhere, which is not asked even if this one has nothing to offer.
        fallback = DateFormat(".ISO_8601", "%Y", "%H", priority=Priority.LOW)
        mapper.settings.add_global(fallback)
    d = describe(items) if setting is not None else "no setting"
    case.note(kind=kind.__name__, formats=d, place=place, type=name.format(kind.__name__), low_priority=fallback is not None)
    trivial = not fs
    de = lambda p: observe(mapper.deserialize, p, T, None, list(settings))
    se = lambda v: observe(mapper.serialize, v, T, None, list(settings))
    texts = []
    if setting is not None and r.random() < 0.25:
        # The same setting, asked for values of other kinds before.
        case.count("asked for other kinds before")
        for other in r.sample([k for k in KINDS if k is not kind], r.choice([1, 2])):
            s = r.choice([write(text_format_ok(r, other), value(r, other)), "2020-01-02", "10:11"])
            observe(load, s, t.Annotated[other, setting])
            observe(dump, value(r, other), t.Annotated[other, setting])
    for _ in range(3):
        v = value(r, kind)
        o = se(wv(v))
        case.ev((d, kind.__name__, place, repr(v)), trivial=trivial, sample=lambda: {"formats": d, "value": repr(v), "got": repr(o)[:150]})
        if not fs:
            case.count("not written, none applies")
            if o.ok or not o.refused:
                case.bad("no listed format applies to the value, but it was not rejected with a conversion error", value=v, got=repr(o))
            if setting is not None and not direct(case, setting.format, v, None):
                case.bad("DateFormat.format() does not report that no format applies", value=v)
            continue
        want = fs[0].write(v)
        case.count("written")
        if setting is None:
            case.count("iso 8601 without setting")
            if o.ok and isinstance(unwrap(o.value, place, name), str):
                k = unwrap(o.value, place, name)
                if kind.fromisoformat(k) != v:
                    case.bad("without a setting, a value is not written as ISO 8601", value=v, got=k)
        if fs[0].source:
            case.count("not the first listed")
        if not o.ok or not deep_eq(o.value, wj(want)):
            case.bad("a value is not written with the first applicable format", value=v, got=repr(o), expected=want)
        if setting is not None and not direct(case, setting.format, v, want):
            case.bad("DateFormat.format() does not use the first applicable format", value=v, expected=want)
        texts.append(want)
        f = fs[0]
        if f.text is not None and captures(f.text, v) and not (kind is D.time and v.tzinfo is not None):
            back = de(o.value)
            case.count("recovered")
            if not back.ok or not deep_eq(back.value, wv(v)) and not equal(unwrap(back.value, place, name), plain(v)):
                case.bad("a value is not recovered although its format captures everything", value=v, text=want, got=repr(back))
        for g in fs[1:]:
            texts.append(g.write(v))
    for one in (ISO_8601, JAVA_OFFSET_DATETIME):
        for o in getattr(one, KINDS[kind][1] + "_formats")[:1]:
            texts.append(One(kind, obj=o).write(value(r, kind)))
    texts.append(write(text_format_ok(r, kind), value(r, kind)))
    r.shuffle(texts)
    cand = texts[:6]
    cand += [mutate(r, s) for s in cand for _ in range(2)]
    cand += r.sample(["", "0", "now", "2020", "2020-02-30", "2020-02-29", "12:60", "24:00", "23:59:60", "2023-02-29T10:00", "10:00+99:00", "0000-01-01", "10:00:00.1234567", "10:00:00.9999999Z", "20:00-0030"], 2)
    for s in cand:
        want = None
        for i, f in enumerate(fs):
            want = f.read(s)
            if want is not None:
                if i:
                    case.count("read by a later format")
                break
        o = de(wj(s))
        case.ev((d, kind.__name__, place, s), trivial=trivial, sample=lambda: {"formats": d, "text": s, "got": repr(o)[:150]})
        if want is None:
            case.count("refused, none applies" if not fs else "refused, none accepts")
            if not o.refused:
                case.bad("none of the listed formats accepts the text, but it was not rejected with a conversion error", text=s, got=repr(o))
        else:
            case.count("read")
            if not o.ok:
                case.bad("a listed format accepts the text, but it was rejected", text=s, expected=want, got=repr(o))
            got = unwrap(o.value, place, name)
            # (The format library drops the zone of a time it reads; see FINDINGS.)
            if not equal(got, want) and not (kind is D.time and equal(got, want.replace(tzinfo=None))):
                case.bad("a text was not read as the value it denotes", text=s, expected=want, got=repr(got))
        if setting is not None and r.random() < 0.3 and not direct(case, lambda x: setting.parse(kind, x), s, want):
            case.bad("DateFormat.parse() differs from the formats", text=s, expected=want)


def equal(a, b):
    return type(a) is type(b) and a == b and getattr(a, "tzinfo", None) == getattr(b, "tzinfo", None)


def unwrap(x, place, name):
    if place == "field":
        x = x["x"] if isinstance(x, dict) else x.x
    if name.startswith("List"):
        return x[0]
    if name.startswith("Dict"):
        return x["k"]
    if name.startswith("Tuple"):
        return x[1]
    return x


def text_format_ok(r, kind):
    while True:
        f = text_format(r, kind)
        if applies(f, kind):
            return f


def direct(case, fn, x, want):
    """Whether the setting's own method gives *want*, or ValueError if that is None."""
    case.count("asked directly")
    try:
        got = fn(x)
    except ValueError:
        return want is None
    return want is not None and (equal(got, want) or type(want) is D.time and equal(got, want.replace(tzinfo=None)))


def describe(items):
    return "[" + ", ".join(s for _, s, _ in items) + "]"


def _time_offset():
    v = D.time(4, 5, 6, tzinfo=D.timezone.utc)
    f = DateFormat("%H:%M:%S%z")
    o = observe(load, observe(dump, v, D.time, None, [f]).value, D.time, None, [f])
    return None if o.ok and equal(o.value, v) else f"{v!r} came back as {o!r}"


def _long_fraction():
    o = observe(load, "10:00:00.0000091", D.time)
    return None if o.ok and o.value == D.time(10, 0, 0, 9) else f"'10:00:00.0000091' was read as {o!r}"


FINDINGS = {"aware-time-loses-offset": _time_offset, "long-fraction-misread": _long_fraction}
