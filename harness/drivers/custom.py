"""Messages that any item can be asked to build and to send (C26)."""
from pyown.exceptions import InvalidTag
from pyown.items import EnergyManagement, Gateway, Light
from pyown.items.automation import Automation
from pyown.items.base import BaseItem
from pyown.items.camera import Camera
from pyown.items.energy import StopGo
from pyown.items.lighting import Dimmer
from pyown.messages import BaseMessage
from pyown.tags import Dimension, Value, What, Where, Who

from .. import catalogue
from ..core import ABSENT, codes
from ..vloop import split_frames
from .message import WHOS, clean, rand_tag

PLAIN = {"Light": Light, "Dimmer": Dimmer, "Automation": Automation, "Camera": Camera, "BaseItem": BaseItem}
ENERGY = {"EnergyManagement": EnergyManagement, "StopGo": StopGo}
CLASS_WHO = dict(catalogue.WHO, BaseItem=1)
WHATS = ["0", "1", "18", "1000", "1000#1", "0#255", "30#10#5", "75#1", "24", "53#4#0", "#1", "120", "01", "00"]
DIMS = ["0", "1", "2", "12", "113", "1200#1", "52#21#3", "72#2", "22", "08", "1013", "53#4"]


class Case:
    def __init__(self, rng, bench):
        self.rng = rng
        self.cls = cls = rng.choice(list(PLAIN) * 2 + list(ENERGY) + ["Gateway"])
        where = rng.choice(catalogue.ADDRESSES.get(cls, catalogue.LIGHT_WHERE))
        if cls in PLAIN and rng.random() < .6:
            where = self.tag()
        who = rng.choice(WHOS) if cls != "Gateway" and rng.random() < .5 else None
        self.where, self.who = where, who or str(CLASS_WHO[cls])
        kw = {}
        if who is not None:
            kw["who"] = rng.choice([who, Who(who)])
        if cls == "Gateway":
            self.item = Gateway(bench.client)
        else:
            self.item = {**PLAIN, **ENERGY}[cls](bench.client, rng.choice([where, Where(where)]), **kw)

    def tag(self):
        while True:
            t = rand_tag(self.rng)
            if clean(t):
                return t

    def call(self):
        rng = self.rng
        m = rng.choice(["normal", "normal", "status", "request", "writing", "writing"])
        values = []
        tag = None
        if m == "normal":
            tag = rng.choice(WHATS) if rng.random() < .4 else self.tag()
        elif m != "status":
            tag = rng.choice(DIMS) if rng.random() < .4 else self.tag()
            while not tag or tag.startswith("#"):
                tag = self.tag()
        if m == "writing":
            values = [self.tag() for _ in range(rng.choice([1, 1, 2, 3, 4, 8, 30]))]
        return m, tag, values


def as_what(rng, t, force=False):
    return What(t) if force or rng.random() < .5 else t


def as_dim(rng, t, force=False):
    return Dimension(t) if force or rng.random() < .5 else t


def as_value(rng, v):
    return Value(int(v)) if v.isdigit() and str(int(v)) == v and rng.random() < .5 else Value(v)


def record(k, c, m, tag, values):
    return {"k": k, "cls": c.cls, "who": codes(c.who), "where": codes(c.where), "m": m, "tag": ABSENT if tag is None else codes(tag),
            "values": [codes(v) for v in values], "made": [], "type": "", "sent": [], "answer": [], "got": [], "res": "ok"}


def make(rng, c, m, tag, values):
    r = record("make", c, m, tag, values)
    try:
        if m == "normal":
            msg = c.item.create_normal_message(as_what(rng, tag))
        elif m == "status":
            msg = c.item.create_status_message()
        elif m == "request":
            msg = c.item.create_dimension_request_message(as_dim(rng, tag, True))
        else:
            msg = c.item.create_dimension_writing_message(as_dim(rng, tag, True), *[as_value(rng, v) for v in values])
        r["made"] = codes(msg.message)
        r["type"] = msg.type.value if isinstance(msg, BaseMessage) else "not a message"
    except Exception as e:
        r["res"] = "other " + type(e).__name__
    return r


def answers(rng, c, m):
    """Frames of the kind asked for, by any item."""
    last = None
    for _ in range(rng.choice([0, 1, 1, 2, 3, 7] + [40] * (rng.random() < .1))):
        if last and rng.random() < .2:
            yield last
            continue
        who = rng.choice(WHOS) if rng.random() < .3 else c.who
        where = c.where if rng.random() < .5 else c.tag()
        if m == "status":
            last = "*%s*%s*%s##" % (who, c.tag(), where)
        else:
            dim = c.tag()
            while not dim or dim.startswith("#"):
                dim = c.tag()
            last = "*#%s*%s*%s*%s##" % (who, where, dim, "*".join(c.tag() for _ in range(rng.choice([1, 1, 2, 6]))))
        yield last


def send(rng, bench, c, m, tag, values):
    r = record("send", c, m, tag, values)

    async def run():
        try:
            if m == "normal":
                await c.item.send_normal_message(as_what(rng, tag))
            elif m == "status":
                async for x in c.item.send_status_request():
                    r["got"].append(codes(str(x)))
            elif m == "request":
                async for x in c.item.send_dimension_request(as_dim(rng, tag)):
                    r["got"].append(codes(str(x)))
            else:
                await c.item.send_dimension_writing(as_dim(rng, tag), *[as_value(rng, v) for v in values])
        except Exception as e:
            r["res"] = "other " + type(e).__name__
    t = bench.loop.task(run())
    bench.loop.settle()
    r["sent"] = [codes(f) for f in split_frames(bench.conn.poll())]
    texts = list(answers(rng, c, m)) if m in ("status", "request") else []
    r["answer"] = [codes(x) for x in texts]
    data = "".join(texts) + "*#*1##"
    i = 0
    while i < len(data):
        n = rng.choice([1, 5, 20, 1000])
        bench.conn.send(data[i:i + n])
        i += n
        if rng.random() < .3:
            bench.loop.settle()
    bench.loop.settle()
    if not t.done():
        r["res"] = "pending"
    r["sent"] += [codes(f) for f in split_frames(bench.conn.poll())]
    if not t.done():
        bench.loop.advance(6)
    return r


def c26(rec):
    rng = rec.rng
    bench = None
    for i in range(4000 if not rec.thorough else 60000):
        if i % 200 == 0:
            if bench:
                bench.close()
            bench = catalogue.Bench(rng.choice([catalogue.SessionType.CommandSession, catalogue.SessionType.OldCommandSession]))
        try:
            c = Case(rng, bench)
        except InvalidTag:
            # StopGo and energy addresses are checked by C24
            continue
        # several calls on the same item: none leaves anything behind
        for _ in range(rng.choice([1, 2, 3])):
            m, tag, values = c.call()
            rec.emit(make(rng, c, m, tag, values))
            rec.emit(send(rng, bench, c, m, tag, values))
    bench.close()
