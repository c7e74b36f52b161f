"""Drives pyown.tags and pyown.auth (C06, C07, C08, C09)."""
import enum
import hashlib
import itertools

import pyown.items  # noqa: F401  (defines the WHAT and DIMENSION enumerations)
from pyown.auth.enum import AuthAlgorithm
from pyown.auth.hmac import client_hmac, compare_hmac, create_key, digits_to_hex, hex_to_digits, server_hmac
from pyown.auth.open import own_calc_pass
from pyown.exceptions import InvalidTag
from pyown.tags import Dimension, Value, What, Where, Who
from pyown.tags.base import Tag, TagWithParameters

from ..core import ABSENT, codes
from .message import exhaustive, rand_tag

CLASSES = [("Tag", Tag), ("TagWithParameters", TagWithParameters), ("Value", Value), ("What", What), ("Where", Where),
           ("Dimension", Dimension)]


def members(base):
    """The members of all the enumerations derived from a tag class."""
    for sub in base.__subclasses__():
        if issubclass(sub, enum.Enum):
            yield from sub.__members__.values()
        yield from members(sub)


def param_record(t, text, p, name):
    r = dict(k="param", cls=name, **{"in": codes(text)}, p=codes(p), plain=not isinstance(t, TagWithParameters), res="ok",
             text=ABSENT, tag=ABSENT, params=[], noparams=False, after=ABSENT, afterparams=[], aftertag=ABSENT,
             unchanged=ABSENT)
    try:
        r["text"] = codes(t.string) if str(t) == t.string else ABSENT
        r["tag"] = codes(t.tag)
        ps = t.parameters
        r["noparams"] = not ps
        r["params"] = [codes(x) for x in ps or []]
        n = t.with_parameter(p)
        r["after"] = codes(n.string) if str(n) == n.string else ABSENT
        r["afterparams"] = [codes(x) for x in n.parameters]
        r["aftertag"] = codes(n.tag)
        r["unchanged"] = codes(t.string)
    except Exception as e:
        r["res"] = repr(e)[:100]
    return r


class Text:
    """Not a tag, a string or an integer, but with the same text as one."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def cmp_record(a, b, kind, name):
    r = dict(k="cmp", cls=name, a=codes(a.string), b=codes(b.string if isinstance(b, Tag) else b), kind=kind, eq=a == b,
             ne=a != b, qe=b == a, heq=hash(a) == hash(b))
    for f in ("eq", "ne", "qe"):
        r[f] = r[f] is True
    return r


def c06(rec):
    rng = rec.rng
    enums = list(members(What)) + list(members(Dimension))
    texts = [t for t in exhaustive("01#", 4) if "##" not in t] + [rand_tag(rng) for _ in range(200 if not rec.thorough else 3000)]
    # many parameters, long ones, empty ones
    for n in (5, 8, 9, 10, 11, 16, 17, 33, 65, 130):
        texts += ["#".join(str(rng.randrange(1000)) for _ in range(n)), "#" + "#".join(str(i) for i in range(n)), "7" * n, "5#" + "8" * n]
    parms = ["1", "00", 0, 7, 255, 12345, "4#01", "", 10 ** 30, "1#2#3#4#5#6#7#8#9#10#11#12"]
    for name, cls in CLASSES:
        for t in texts:
            if t.endswith("#"):
                rec.emit(dict(param_record(cls(t), t, "1", name), after=codes(t + "#1"), afterparams=[codes(x) for x in (t + "#1").split("#")[1:]],
                              aftertag=codes((t + "#1").split("#")[0]), unchanged=codes(t), res="ok"))
                continue
            for p in rng.sample(parms, 3) if len(t) > 2 else parms:
                rec.emit(param_record(cls(t), t, p, name))
        # one after the other
        t, text = cls("1"), "1"
        for i in range(30):
            rec.emit(param_record(t, text, i, name))
            try:
                t, text = t.with_parameter(i), f"{text}#{i}"
            except Exception:
                break
    for m in enums:
        for p in [1, 5, "03", 254, "1#2", 0, ""]:
            rec.emit(param_record(m, m.value, p, type(m).__name__))
            try:
                n = m.with_parameter(p)
                if p == "":
                    continue  # nothing can follow it
                rec.emit(param_record(n, f"{m.value}#{p}", 9, type(m).__name__ + "+"))
            except Exception:
                pass
    # comparisons
    pool = [cls(t) for _, cls in CLASSES for t in ("", "0", "1", "01", "1#2", "1#02", "#1", "12", "121", "1000000000000", "1#2#3#4#5#6#7#8#9#10#11", "1#2#3#4#5#6#7#8#9#10#12")]
    pool += rng.sample(enums, 40) + list(Who)[:12]
    for a in pool:
        for b in pool:
            rec.emit(cmp_record(a, b, "tag", type(a).__name__))
        for s in ("", "0", "1", "01", "1#2", "#1", "12", "1000"):
            rec.emit(cmp_record(a, s, "str", type(a).__name__))
        for n in (0, 1, 12, 1000, 4, -1, 10 ** 12):
            rec.emit(cmp_record(a, n, "int", type(a).__name__))
        for x in (None, 1.0, b"1", ["1"], ("1",), Text("1"), Text("0"), object()):
            r = dict(k="cmp", cls=type(a).__name__, a=codes(a.string), b=codes(type(x).__name__), kind="other", eq=True, ne=False,
                     qe=True, heq=False)
            try:
                r.update(eq=bool(a == x), ne=bool(a != x), qe=bool(x == a))
            except Exception:
                pass
            rec.emit(r)
    # WHO
    for c in [str(i) for i in range(0, 1100)] + ["", "01", "001", "#1", "1#", "a", "-1", " 1", "1 ", "1.0", "SCENE", "LIGHTING", "lighting",
                                                "10001", "18#1", "٣", "True"]:
        r = dict(k="who", **{"in": codes(c)}, res="", text=ABSENT, str=ABSENT, name=[])
        try:
            w = Who(c)
            r.update(res="ok", text=codes(w.string), str=codes(str(w)))
            r["name"] = codes(w.name)
        except (ValueError, InvalidTag):
            r["res"] = "invalid"
        except Exception:
            r["res"] = "other"
        rec.emit(r)
    try:
        r = dict(k="whoall", codes=[codes(w.string) for w in Who], names=[codes(w.name) for w in Who],
                 attributes={k: codes(w.string) for k, w in Who.__members__.items()})
    except Exception:
        r = dict(k="whoall", codes=[], names=[], attributes={})
    rec.emit(r)


# ---- C07 ---------------------------------------------------------------------
def table():
    yield "0"
    yield "00"
    yield "100"
    for a in range(1, 10):
        yield str(a)
    for pl in range(1, 16):
        yield f"00{pl:02d}"
        yield f"10{pl:02d}"
    for a in range(1, 10):
        for pl in range(1, 10):
            yield f"{a}{pl}"
        for pl in range(10, 16):
            yield f"{a:02d}{pl}"
    for g in range(1, 256):
        yield f"#{g}"


def c07(rec):
    suffixes = [f"#4#{i:02d}" for i in range(1, 16)] + [f"#4#{i}" for i in range(1, 10)]
    bases = list(table())
    for w in bases + [b + s for b in bases + [""] for s in suffixes]:
        r = dict(k="where", **{"in": codes(w)}, kind="raised")
        try:
            r["kind"] = Where(w).type.name
        except Exception:
            pass
        rec.emit(r)


# ---- C08 ---------------------------------------------------------------------
def c08(rec):
    rng = rec.rng

    def one(pw, nonce, mode):
        r = dict(k="open", mode=mode, password=codes(pw), bits=[(pw >> (31 - i)) & 1 for i in range(32)], nonce=codes(nonce),
                 res="", out=ABSENT)
        try:
            p = pw if "int" in mode.split(",")[0] else ("00" if "zeros" in mode else "") + str(pw)
            n = int(nonce) if "int" in mode.split(",")[1] else nonce
            r["out"] = codes(own_calc_pass(p, n))
            r["res"] = "ok"
        except Exception:
            r["res"] = "other"
        rec.emit(r)

    words = [0, 1, 12345, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x12345678, 0x00FF00FF, 0xAAAAAAAA, 0x55555555]
    words += [1 << i for i in range(32)] + [0xFFFFFFFF ^ (1 << i) for i in range(0, 32, 3)]
    for w in words:
        for d in "123456789":
            one(w, d, "str,str")
    for w in (12345, 0x9ABCDEF1):
        for a, b in itertools.product("0123456789", repeat=2):
            one(w, a + b, "str,str")
    for i in range(2500 if not rec.thorough else 40000):
        w = rng.choice([rng.randrange(2 ** 32), rng.randrange(100000), rng.randrange(10 ** 9)])
        n = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 3, 5, 8, 9, 9, 10, 12, 20, 40, 70])))
        if i % 5 == 0:
            n = "0" * rng.randrange(1, 4) + n
        mode = rng.choice(["str,str", "int,str", "str,int", "int,int", "zeros,str"])
        if mode.endswith("int") and n.startswith("0"):
            mode = "str,str"
        one(w, n, mode)


# ---- C09 ---------------------------------------------------------------------
def c09(rec):
    rng = rec.rng

    def guarded(f, *a):
        try:
            return "ok", codes(f(*a))
        except Exception:
            return "other", ABSENT

    def enc(s):
        res, out = guarded(hex_to_digits, s)
        back = guarded(lambda: digits_to_hex(hex_to_digits(s)))[1]
        rec.emit(dict(k="codec", dir="enc", **{"in": codes(s)}, res=res, out=out, back=back))

    def dec(s):
        res, out = guarded(digits_to_hex, s)
        back = guarded(lambda: hex_to_digits(digits_to_hex(s)))[1]
        rec.emit(dict(k="codec", dir="dec", **{"in": codes(s)}, res=res, out=out, back=back))

    for s in exhaustive("0123456789abcdefABCDEF", 2):
        enc(s)
    for _ in range(500 if not rec.thorough else 5000):
        s = "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([3, 5, 40, 64, 127])))
        enc(s)
        dec("".join(f"{rng.randrange(16):02d}" for _ in range(rng.choice([1, 2, 3, 20, 32, 64]))))

    ida, idb = "736F70653E", "636F70653E"
    for i in range(600 if not rec.thorough else 6000):
        alg = AuthAlgorithm.SHA1 if i % 2 else AuthAlgorithm.SHA256
        h = hashlib.sha1 if i % 2 else hashlib.sha256
        n = 40 if i % 2 else 64
        hexs = "0123456789abcdef" if i % 3 else "0123456789ABCDEF"
        ra = "".join(rng.choice(hexs) for _ in range(n if i % 7 else rng.randrange(1, 130)))
        rb = "".join(rng.choice(hexs) for _ in range(n if i % 5 else rng.randrange(1, 130)))
        pw = rng.choice(["12345", "0", "00012345", "pa55word!", "abcdef", "", "é€", str(rng.randrange(10 ** 9)), "x" * 100, " 12345", "12345 ", " ", "\t12345\n", "012345", "1 2 3", "x" * 5000,
                         "ABCDEF", "AbCdEf", "a\0b", "*#", "12345##"])
        a, b = ida, idb
        kw = {}
        if i % 11 == 10:
            a, b = "AABB", "01"
            kw = dict(client_identity=a, server_identity=b)
        hx = lambda s: h(s.encode()).hexdigest()
        kab = hx(pw)
        oracle = [dict(text=codes(s), hash=codes(hx(s))) for s in (pw, ra + rb + a + b + kab, ra + rb + kab)]
        r = dict(k="digest", alg=int(alg), ra=codes(ra), rb=codes(rb), ida=codes(a), idb=codes(b), password=codes(pw), oracle=oracle,
                 client=ABSENT, server=ABSENT)
        try:
            r["client"] = codes(client_hmac(server_key=ra, client_key=rb, password=pw, hash_algorithm=alg, **kw).hex())
            r["server"] = codes(server_hmac(server_key=ra, client_key=rb, password=pw, hash_algorithm=alg).hex())
        except Exception:
            pass
        rec.emit(r)
    for alg in (AuthAlgorithm.SHA1, AuthAlgorithm.SHA256):
        try:
            keys = [create_key(alg) for _ in range(3000 if not rec.thorough else 30000)]
        except Exception:
            keys = [""]
        rec.emit(dict(k="keys", alg=int(alg), keys=[codes(x) for x in keys]))
    try:
        keys = [create_key() for _ in range(50)]
    except Exception:
        keys = [""]
    rec.emit(dict(k="keys", alg=2, keys=[codes(x) for x in keys]))
    for s in [str(i) for i in range(0, 130)] + ["", "01", "02", "#1", "1#", "a", " 1", "1 ", "-1", "1.0", "SHA1", "SHA256"]:
        v, msg = 0, ""
        try:
            a = AuthAlgorithm.from_string(s)
            v, msg = int(a), str(a.to_message())
        except ValueError:
            pass
        except Exception:
            v = -1
        rec.emit(dict(k="alg", **{"in": codes(s)}, alg=v, msg=codes(msg)))
    for _ in range(300):
        a = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 20, 32])))
        b = rng.choice([a, a[:-1], a + b"\0", a[::-1], bytes([*a[:-1], (a[-1] ^ 1) if a else 0]), b""])
        try:
            same = bool(compare_hmac(a, b))
        except Exception:
            same = not (a == b)
        rec.emit(dict(k="compare", a=list(a), b=list(b), same=same))
