"""Items and their addresses (C30)."""
import itertools

from pyown.client import SessionType
from pyown.exceptions import InvalidTag
from pyown.items import Automation, Camera, Dimmer, EnergyManagement, Gateway, Light, StopGo
from pyown.tags import Where

from ..catalogue import Bench
from ..core import codes

CLASSES = {"Light": Light, "Dimmer": Dimmer, "Automation": Automation, "Camera": Camera, "EnergyManagement": EnergyManagement, "StopGo": StopGo,
           "Gateway": Gateway}


def look(item, cls, known):
    kind = item.get_type().name if cls in ("EnergyManagement", "StopGo") else ""
    return {"where": codes(str(item.where)), "kind": kind, "client": known.get(id(item.client), "another")}


def one(rec, bench, other, cls, w, tag):
    r = {"k": "item", "cls": cls, "in": codes(w), "tag": tag, "res": "ok", "where": [], "kind": "", "client": "", "after": {"where": [], "kind": "", "client": ""},
         "frames": []}
    try:
        item = CLASSES[cls](bench.client, Where(w) if tag else w)
    except InvalidTag:
        r["res"] = "tag"
    except Exception:
        r["res"] = "other"
    else:
        try:
            r.update(look(item, cls, {id(bench.client): "own"}))
            item.client = other.client
            r["after"] = look(item, cls, {id(other.client): "new"})
        except Exception as e:
            r["res"] = "other"
            r["why"] = repr(e)
    r["frames"] = [codes(f) for f in bench.frames() + other.frames()]
    rec.emit(r)


def texts(rng, thorough):
    for n in range(1, 256):
        yield f"1{n}" if n < 128 else f"5{n}"
        yield f"5{n}"
        yield f"7{n}#0"
        # almost one of them
        for w in (f"7{n}", f"7{n}#1", f"{n}", f"#{n}", f"8{n}#0", f"7{n}#00", f"7#{n}", f"5{n}#0", f"1{n}#0", f"1#{n}", f"5#{n}"):
            if rng.random() < (.25 if not thorough else 1):
                yield w
    for k in range(4 if not thorough else 6):
        for t in itertools.product("0157#" + ("" if k > 3 else "x"), repeat=k):
            yield "".join(t)
    yield from ("1 1", "51\n", "5٣", "1²", "7１#0", "51*", "-5", "+51", "5.1", "0x5", "５1", "1½")
    for _ in range(300 if not thorough else 5000):
        yield "".join(rng.choice("0123456789#") for _ in range(rng.randrange(1, 8)))


def c30(rec):
    rng = rec.rng
    bench, other = Bench(SessionType.CommandSession), Bench(SessionType.CommandSession)
    for w in texts(rng, rec.thorough):
        for cls in ("EnergyManagement", "StopGo", *(rng.sample(["Light", "Dimmer", "Automation", "Camera", "Gateway"], 1 if not rec.thorough else 5))):
            one(rec, bench, other, cls, w, False)
            try:
                Where(w)
            except Exception:
                continue
            one(rec, bench, other, cls, w, True)
    bench.close()
    other.close()
