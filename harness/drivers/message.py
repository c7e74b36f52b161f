"""Drives pyown.messages and pyown.tags (C01, C02, C05)."""
import itertools

from pyown.exceptions import InvalidTag, ParseError
from pyown.messages import (ACK, NACK, DimensionRequest, DimensionResponse, DimensionWriting, GenericMessage,
                            NormalMessage, StatusRequest, parse_message)
from pyown.tags import Dimension, Value, What, Where, Who
from pyown.tags.base import Tag, TagWithParameters

from ..core import ABSENT, Slow, codes, limit

WHOS = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
        "1001", "1004", "1013", "1018"]
BLANK = dict(type="", tags=[], text=ABSENT, str=ABSENT, bytes=ABSENT, who=ABSENT, what=ABSENT, where=ABSENT,
             dim=ABSENT, values=[], again="", againtype="", againtags=[], eq=False, heq=False)


def part(m, name):
    v = getattr(m, name, None)
    return ABSENT if v is None else codes(v)


def seen(m):
    values = getattr(m, "values", None)
    return dict(type=str(m.type), tags=[codes(t) for t in m.tags],
                who=part(m, "who"), what=part(m, "what"), where=part(m, "where"), dim=part(m, "dimension"),
                values=[] if values is None else [codes(v) for v in values])


def shown(m):
    # what .tags returns is a copy
    for change in (lambda t: t.append("7"), lambda t: t.clear()):
        try:
            change(m.tags)
        except Exception:
            pass
    return dict(text=codes(m.message), str=codes(str(m)), bytes=list(m.bytes))


def reparsed(m):
    """What the rendered text of the message is parsed to."""
    try:
        n = parse_message(str(m))
    except ParseError:
        return dict(again="parse")
    except Exception:
        return dict(again="other")
    return dict(again="ok", againtype=str(n.type), againtags=[codes(t) for t in n.tags],
                eq=bool(n == m) and bool(m == n) and not (n != m), heq=hash(n) == hash(m))


def parse_record(s, seconds=5.0):
    r = dict(BLANK, k="parse", **{"in": codes(s)}, res="")
    try:
        with limit(seconds):
            m = parse_message(s)
    except Slow:
        r["res"] = "slow"
        return r
    except ParseError:
        r["res"] = "parse"
        return r
    except Exception:
        r["res"] = "other"
        return r
    r["res"] = "ok"
    try:
        r.update(seen(m))
        r.update(shown(m))
        r.update(reparsed(m))
    except Exception as e:
        r["res"] = "other"
        r["type"] = repr(e)[:100]
    return r


# ---- inputs ------------------------------------------------------------------
def exhaustive(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


def rand_tag(rng, empty=True):
    kind = rng.randrange(8)
    if kind == 0 and empty:
        return ""
    if kind <= 3:
        return str(rng.randrange(10 ** rng.randrange(1, 6)))
    if kind == 4:
        return "#".join(str(rng.randrange(300)) for _ in range(rng.randrange(2, 5)))
    if kind == 5:
        return "#" + str(rng.randrange(256))
    if kind == 6:
        return "0" * rng.randrange(1, 4) + str(rng.randrange(100))
    return "#".join(["", str(rng.randrange(10)), str(rng.randrange(10))])


def rand_frame(rng):
    """A frame of any class, often well formed, sometimes near the border."""
    who = rng.choice(WHOS) if rng.random() < .8 else str(rng.randrange(1200))
    head = rng.choice(["", "#", "#", ""]) + who
    if rng.random() < .05:
        head = rng.choice(["#", "", "##", "#1#2", "1#2", "98", "99"])
    tags = [head] + [rand_tag(rng) + ("#" * rng.choice([1, 1, 2]) if rng.random() < .04 else "") for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 4, 6]))]
    if len(tags) >= 3 and rng.random() < .35:
        tags[2] = "#" + tags[2]
    return "*" + "*".join(tags) + "##"


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.randrange(4)
        i = rng.randrange(len(s) + 1)
        if op == 0:
            s.insert(i, rng.choice("*#0123456789 \n\tax-+._٣²\x00é\u2003"))
        elif op == 1 and s:
            del s[min(i, len(s) - 1)]
        elif op == 2 and s:
            s[min(i, len(s) - 1)] = rng.choice("*#019 aé")
        elif s:
            j = min(i, len(s) - 1)
            s[j:j] = s[max(0, j - 3):j]
    return "".join(s)


def frames(rec):
    n = 4 if not rec.thorough else 6
    for body in exhaustive("*#1", n + 1):
        yield "*" + body + "##"
    for who in WHOS + ["9", "10", "11", "12", "19", "20", "21", "23", "26", "98", "99", "100", "1000", "1002",
                       "1017", "1019", "01", "001", "013", "#1"]:
        for t in ("*{}*1*2##", "*{}*1##", "*{}##", "*{}*1*2*3##", "*{}*1#5*2#4#1##", "*{}***##", "*{}**##", "*#{}*1##",
                  "*#{}*##", "*#{}*1*2##", "*#{}**2##", "*#{}*1*##", "*#{}***##", "*#{}*1*2*3##",
                  "*#{}*1*2*3*4*5##", "*#{}*1*2***##", "*#{}*1*#2*3##", "*#{}*1*#2##", "*#{}*1*#2*##", "*#{}*1*#*3##",
                  "*#{}**#0#1*3##", "*#{}*#1*51#2#3*1##", "*#{}*71#0*#1200#1*5##", "*#{}#2*1##", "*#{}##"):
            yield t.format(who)
    # separators at the ends of every tag
    shapes = ["", "1", "#1", "1#", "#", "##", "1##", "#1#", "1#1", "#1#1#"]
    for head in ("1", "#1", "1#", "#1#", "#13", "#1#1"):
        for a, b in itertools.product(shapes, shapes):
            for rest in ("", "*1", "*1#", "*#1#*1"):
                yield "*%s*%s*%s%s##" % (head, a, b, rest)
    yield from big(rec.rng)
    for _ in range(6000 if not rec.thorough else 60000):
        yield rand_frame(rec.rng)


MANY = (5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 26, 31, 32, 33, 50, 64, 65, 100, 128)


def big(rng):
    """Frames with many tags, many parameters, long numbers."""
    for n in MANY:
        num = "".join(rng.choice("0123456789") for _ in range(n))
        par = "#".join(str(rng.randrange(100)) for _ in range(n))
        vals = "*".join(rand_tag(rng).strip("#") for _ in range(n))
        for t in (f"*1*{num}*11##", f"*1*1*{num}##", f"*#1*{num}##", f"*#13*{num}*1##", f"*#1*1*{num}##", f"*#1*1*#{num}*{num}##", f"*#1*1*1*{num}##",
                  f"*1*{par}*11##", f"*1*1*{par}##", f"*#1*{par}##", f"*#13*{par}*1##", f"*#1*1*{par}##", f"*#1*1*#{par}*{par}##", f"*#1*1*1*{par}##",
                  f"*#1*1*1*{vals}##", f"*#1*1*#1*{vals}##", f"*1*{vals}*1##", f"*99*{vals}##", f"*#99*{vals}##", f"*{num}*1*1##", f"*#{num}##",
                  f"*#1*1*1{'*' * n}##", f"*#1*1*#1{'*' * n}##", f"*1*1*1{'*' * n}##"):
            yield t


def malformed(rec):
    yield from exhaustive("*#1 ", 6 if not rec.thorough else 8)
    yield from ["", "##", "*##", "#*##", "*#*1", "*#*1#", "*#*1##x", "x*#*1##", " *#*1## ", "\n*1*1*1##\n", "*1*1*1##\n",
                "*1*1*1##\n\n", "\t*#*0##\r\n", "*1*1*1##*1*1*1##", "*1*1\n*1##", "*1* *1##", "*1*1*1##*", "**##",
                "***##", "*1**##", "*#1**##", "*#1***##", "*1*1*1###", "###", "####", "*####", "*1####", "*#1##1##",
                "*#13**#0*21*10*00*001##", "*#*1#*##", "*#*2##", "*#*01##", "*#*##", "*#*1*##", "*#*1*1##", "*#*0*1##",
                "*98*2##", "*99*0##", "*99*1##", "*123456789##", "*#123456789##", "*-1*1*1##", "*1.0*1*1##",
                "*١*1*1##", "*1*²*1##", "*1*1*1＃＃", "\u2003*1*1*1##\u2003", "\x00*1*1*1##", "*1*1*1##\x00",
                "\ufeff*1*1*1##", "*1*1*\x851##", "\ud800", "*1*1*1##\ud800", "*" * 50 + "##", "*" + "1" * 200 + "##",
                "*1*" + "#1" * 60 + "*1##"]
    rng = rec.rng
    for _ in range(5000 if not rec.thorough else 60000):
        yield mutate(rng, rand_frame(rng))


LONG = [  # (pre, unit, suf): texts whose parsing must stay proportional to their length
    ("*", "1", "##"), ("*", "1", "x##"), ("*1*1*", "1", "#x##"), ("*#1*", "1#", "x##"), ("*#1*", "#1", "x##"),
    ("*#1*1*", "1#1*", "x##"), ("*#1*1*#1", "*1#1", "x##"), ("*#1*1*#1", "*", "x##"), ("*#1*1*1", "*#1", "*a##"),
    ("*#", "1", "*##*"), ("*#", "1#", "*1*1##x"), ("*#1*1*#1", "#1", "*x##"), ("*#1*1*#1", "#", "##"),
    ("*#1*1*1", "*1", "##"), ("*#1*1*#1", "*1", "##"), ("*1*1#", "1#", "1*1##"), ("*1*", "1", "*1##"),
    ("*1*1*1", "#1", "##"), ("*1*1*1", "#1", "#x##"), ("", " ", "*1*1*1##"), ("*1*1*1##", " ", ""),
    ("*1*1*1##", "\n", "x"), ("*", "*", "##"), ("*", "#", ""), ("", "*", ""), ("", "*1*1*1", "##"),
    ("*#1", "#1", "*1##x"), ("*#1*", "1", "x"), ("*#1*", "1", "*1*1*1*1##x"), ("*1*", "1#1", "x##"),
]


def long_texts(rec):
    sizes = (2000, 20000) if not rec.thorough else (2000, 20000, 100000)
    for x in LONG:
        for n in sizes:
            yield (*x, n)
    # texts of the right characters, so that every pattern is tried on them
    for pre in ("*", "*1*", "*1*1*", "*#1*", "*#1*1*", "*#1*1*#", "*#1*1*1*"):
        for unit in ("1", "#1", "1#", "*", "*1", "*#1", "1#1*", "12*#"):
            for suf in ("##", "1##", "*1##", "*1*1##", "*1*1*1##", "*#1##", "1#*1##", "*1#1*#1*1##", "*1*1"):
                if "##" not in pre + unit + unit + suf.removesuffix("##") and not (unit + suf).endswith("###"):
                    yield pre, unit, suf, 2000


def c02(rec):
    done = set()
    for s in itertools.chain(frames(rec), malformed(rec)):
        if s not in done:
            done.add(s)
            rec.emit(parse_record(s))
    slow = 0
    for pre, unit, suf, n in long_texts(rec):
        if slow < 5:
            res = "ok"
            try:
                with limit(5.0):
                    parse_message(pre + unit * n + suf)
            except Slow:
                res = "slow"
                slow += 1
            except ParseError:
                res = "parse"
            except Exception:
                res = "other"
            rec.emit(dict(k="long", pre=codes(pre), unit=codes(unit), suf=codes(suf), n=n, res=res))


# ---- C01 ---------------------------------------------------------------------
def clean(tag):
    return all(c in "0123456789#" for c in tag) and "##" not in tag and not tag.endswith("#")


def build_record(kind, who, tags, values):
    """tags: (what, where) / (where,) / (where, dim); everything clean."""
    r = dict(BLANK, k="build", res="ok")
    try:
        if kind == "NORMAL":
            r.update(who=codes(who), what=codes(tags[0]), where=codes(tags[1]), tags=[codes(who)] + [codes(t) for t in tags])
            m = NormalMessage((Who(who), What(tags[0]), Where(tags[1])))
        elif kind == "STATUS REQUEST":
            r.update(who=codes(who), where=codes(tags[0]), tags=[codes(who), codes(tags[0])])
            m = StatusRequest((Who(who), Where(tags[0])))
        elif kind == "ACK":
            r.update(tags=[codes("#"), codes("1")])
            m = ACK()
        elif kind == "NACK":
            r.update(tags=[codes("#"), codes("0")])
            m = NACK()
        elif kind == "GENERIC":
            r.update(tags=[codes(t) for t in tags])
            m = GenericMessage(list(tags))
        else:
            r.update(who=codes(who), where=codes(tags[0]), dim=codes(tags[1]), values=[codes(v) for v in values],
                     tags=[codes(who)] + [codes(t) for t in tags] + [codes(v) for v in values])
            cls = {"DIMENSION REQUEST": DimensionRequest, "DIMENSION WRITING": DimensionWriting,
                   "DIMENSION RESPONSE": DimensionResponse}[kind]
            m = cls((Who(who), Where(tags[0]), Dimension(tags[1]), *[Value(v) for v in values]))
        r["type"] = kind
        r.update(shown(m))
        r.update(reparsed(m))
    except Exception:
        r["type"] = kind
        r["res"] = "other"
    return r


def builds(rec):
    rng = rec.rng
    yield build_record("ACK", None, (), ())
    yield build_record("NACK", None, (), ())
    small = ["", "0", "1", "02", "1#2", "#3", "11#4#01", "1#", "#", "##", "1##2"]
    small = [t for t in small if clean(t)]
    for who in WHOS:
        for a in small:
            yield build_record("STATUS REQUEST", who, (a,), ())
            for b in small:
                yield build_record("NORMAL", who, (a, b), ())
                if b and b[0] != "#":
                    yield build_record("DIMENSION REQUEST", who, (a, b), ())
    for n in MANY:
        num = "".join(rng.choice("0123456789") for _ in range(n))
        par = "#".join(str(rng.randrange(100)) for _ in range(n))
        vals = [v for v in (rand_tag(rng) for _ in range(n)) if clean(v)] or ["1"]
        for tag in (num, par):
            yield build_record("STATUS REQUEST", "1", (tag,), ())
            yield build_record("NORMAL", "1", (tag, "11"), ())
            yield build_record("NORMAL", "18", ("1", tag), ())
            yield build_record("DIMENSION REQUEST", "18", (tag, tag), ())
            for kind in ("DIMENSION WRITING", "DIMENSION RESPONSE"):
                yield build_record(kind, "13", (tag, "22"), vals)
                yield build_record(kind, "13", ("", tag), [tag, *vals])
        yield build_record("GENERIC", None, ("98", *vals), ())
    n = 6000 if not rec.thorough else 50000
    while n:
        who = rng.choice(WHOS)
        a, b = rand_tag(rng), rand_tag(rng)
        values = [rand_tag(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 8]))]
        kind = rng.choice(["NORMAL", "STATUS REQUEST", "DIMENSION REQUEST", "DIMENSION WRITING", "DIMENSION RESPONSE",
                           "DIMENSION WRITING", "DIMENSION RESPONSE", "GENERIC"])
        if kind.startswith("DIM"):
            if b.startswith("#"):
                continue
            if kind == "DIMENSION REQUEST":
                if not b:
                    continue
                values = []
            if kind == "DIMENSION RESPONSE" and not values:
                continue
            if kind == "DIMENSION WRITING" and not values and not b:
                continue
        if kind == "GENERIC":
            # a structure or a WHO that no other class has
            first = rng.choice(["9", "98", "99", "1000", "012", "#99", "#012", "#1#2"])
            tags = [first, *values]
            if rng.random() < .3:
                tags = [rng.choice(WHOS), *[rand_tag(rng) for _ in range(rng.choice([0, 1, 3, 4]))]]
            yield build_record(kind, None, tuple(tags), ())
        elif kind == "STATUS REQUEST":
            yield build_record(kind, who, (a,), ())
        else:
            yield build_record(kind, who, (a, b), values)
        n -= 1


def pairs(rec):
    rng = rec.rng
    pool = ["*#*1##", "*#*0##", "*1*1*1##", "*1*1*11##", "*1*11*1##", "*11*1*1##", "*#1*1##", "*#1*1*1##",
            "*#1*1*#1##", "*#1*1*1*1##", "*#1*1*#1*1##", "*1*1##", "*1##", "*#1##", "*99*1##", "*#99*1##", "*#1**1##",
            "*#1*1*##", "*1**1##", "*1*1*##", "*1*1#1*1##", "*1*1*1#1##", "*2*1*1##", "*#1*1*1#1*1##", "*#1*1*1*1#1##",
            "*#1*1*1**1##", "*#1*1*1*1*##", "*#99*1*#1*1##", "*#99*1*1*1##", " *1*1*1##", "*1*01*1##"]
    for _ in range(30):
        pool.append(rand_frame(rng))
    for a in pool:
        for b in pool:
            try:
                x, y = parse_message(a), parse_message(b)
            except ParseError:
                continue
            yield dict(k="pair", a=codes(a), b=codes(b), eq=bool(x == y), qe=bool(y == x), ne=bool(x != y),
                       en=bool(y != x), heq=hash(x) == hash(y))


def c01(rec):
    done = set()
    for s in frames(rec):
        if s not in done:
            done.add(s)
            rec.emit(parse_record(s))
    for s in [" *1*1*1##", "*1*1*1##\n", "\t*#1*1##  ", "\r\n*#13**0*1*2##\r\n"]:
        rec.emit(parse_record(s))
    for r in builds(rec):
        rec.emit(r)
    for r in pairs(rec):
        rec.emit(r)


# ---- C05 ---------------------------------------------------------------------
def tag_record(cls, name, arg):
    r = dict(k="tag", cls=name, **{"in": codes(arg)}, isint=isinstance(arg, int), res="", text=ABSENT)
    try:
        t = cls(arg)
        r["res"] = "ok"
        r["text"] = codes(t.string)
        if codes(str(t)) != r["text"]:
            r["text"] = ABSENT
    except InvalidTag:
        r["res"] = "invalid"
    except Exception:
        r["res"] = "other"
    return r


def derived_record(base, name, arg):
    """A tag made by adding a parameter to another."""
    text = f"{base}#{arg}"
    r = tag_record(lambda _: base.with_parameter(arg), name + ".with_parameter", text)
    return r


def generic_tag_record(arg):
    r = dict(k="tag", cls="GenericMessage.parse", **{"in": codes(arg)}, isint=False, res="", text=ABSENT)
    try:
        m = GenericMessage.parse(["99", arg])
        r["res"] = "ok"
        r["text"] = codes(m.tags[1])
    except InvalidTag:
        r["res"] = "invalid"
    except Exception:
        r["res"] = "other"
    return r


def frame_record(kind, who, tags):
    r = dict(k="frame", kind=kind, tags=[codes(t) for t in tags], res="", text=ABSENT, bytes=ABSENT)
    try:
        if kind == "normal":
            m = NormalMessage((Who(who), What(tags[0]), Where(tags[1])))
        elif kind == "status":
            m = StatusRequest((Who(who), Where(tags[0])))
        elif kind == "request":
            m = DimensionRequest((Who(who), Where(tags[0]), Dimension(tags[1])))
        elif kind == "generic":
            m = GenericMessage.parse([who, *tags])
        else:
            cls = DimensionWriting if kind == "writing" else DimensionResponse
            m = cls((Who(who), Where(tags[0]), Dimension(tags[1]), *[Value(v) for v in tags[2:]]))
        r["res"] = "ok"
        r["text"] = codes(m.message)
        r["bytes"] = list(m.bytes)
    except InvalidTag:
        r["res"] = "invalid"
    except Exception:
        r["res"] = "other"
    return r


def c05(rec):
    rng = rec.rng
    classes = [(Tag, "Tag"), (TagWithParameters, "TagWithParameters"), (Value, "Value"), (What, "What"), (Where, "Where"),
               (Dimension, "Dimension")]
    odd = ["a", "1a", "-1", "+1", " 1", "1 ", "1\n", "\n", "*", "1*1", "*1*1*1##", "1##*1*0*0", "##", "1##", "##1", "1##1", "#",
           "1#", "#1", "#1#", "1#2#3", "1##2#3", "#1##2", "###", "٣", "１", "²", "½", "1.0", "1,0", "0x1", "1_0", "\x00",
           "1\x00", "é", "1\u200b", "#4#", "#4#01", "1" * 300, "1#" * 99 + "1", "1#" * 50 + "#1", "A", "True", "None", "\ud800"]
    # the only bad character anywhere in a long text
    for size in (16, 33, 64, 65, 130, 257, 1030):
        for at in (0, size // 2, size - 1, rng.randrange(size)):
            for bad in ("a", "*", " ", "\n", "\u0663"):
                odd.append("1" * at + bad + "2" * (size - at - 1))
        odd.append("1" * size + "##" + "2" * size)
        odd.append("1" * size + "##")
        odd.append("12#" * size + "3")
    every = list(exhaustive("01#*a", 4 if not rec.thorough else 6)) + odd
    for cls, name in classes:
        for s in every:
            rec.emit(tag_record(cls, name, s))
        for n in [0, 1, 2, 9, 10, 42, 255, 1000, 2 ** 31, 2 ** 64, 10 ** 40, -1, -10, True, False]:
            rec.emit(tag_record(cls, name, n))
        for c in range(0, 300 if not rec.thorough else 70000):
            if 0xD800 <= c < 0xE000:
                continue
            rec.emit(tag_record(cls, name, "1" + chr(c)))
    members = [m for e in (What, Dimension) for sub in e.__subclasses__() for m in getattr(sub, "__members__", {}).values()]
    for base in [cls(t) for cls, _ in classes for t in ("", "1", "#1", "31#2")] + rng.sample(members, min(len(members), 12)):
        for p in odd[:45] + ["1", "0", "", "1#2", 0, 7, 255, 10 ** 20, -1]:
            rec.emit(derived_record(base, type(base).__name__, p))
    for s in every:
        rec.emit(generic_tag_record(s))
    for c in range(300):
        rec.emit(generic_tag_record(chr(c)))
    pool = ["", "1", "0#2", "#1", "1#", "#", "##", "1##", "1##*1*1*1", "1*1", "a", "-1", " ", "##*1*0*0##", "12#34#5", "1##2"]
    for a in pool:
        rec.emit(frame_record("status", "1", (a,)))
        for b in pool:
            for kind in ("normal", "generic"):
                rec.emit(frame_record(kind, "1", (a, b)))
            rec.emit(frame_record("request", "18", (a, b)))
            for kind in ("writing", "response"):
                if kind == "writing" and b == "":
                    continue
                for c in pool:
                    rec.emit(frame_record(kind, "13", (a, b, c)))
    for _ in range(2000 if not rec.thorough else 20000):
        kind = rng.choice(["writing", "response"])
        tags = [rand_tag(rng) if rng.random() < .85 else rng.choice(pool) for _ in range(rng.randrange(3, 9))]
        rec.emit(frame_record(kind, rng.choice(WHOS), tuple(tags)))
