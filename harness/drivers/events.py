"""Event loops, their callbacks and items (C21-C24)."""
import asyncio
import functools
import gc
import json
import multiprocessing
import random

from pyown.client import Client, SessionType
from pyown.exceptions import InvalidTag
from pyown.items import EnergyManagement, Gateway, Light
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy import StopGo
from pyown.items.gateway.gateway import WhatGateway
from pyown.items.lighting import Dimmer
from pyown.messages import ACK
from pyown.tags import Where, Who

from .. import catalogue as cat
from ..catalogue import canon
from ..core import codes
from ..vloop import VLoop
from . import catalogue as dcat


class Handler:
    """A callback that is not a function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def handle(self, *args):
        return self.f(*args)


FORMS = [lambda f: f, lambda f: f, lambda f: Handler(f).handle, Handler, functools.partial, lambda f: lambda *args: f(*args)]


def gateway(n):
    return [lambda f: Gateway.register_callback(WhatGateway(n), f)]


def energy(name):
    return [getattr(EnergyManagement, name), getattr(StopGo, name)]


REGISTER = {
    "light.status": [Light.on_status_change, Dimmer.on_status_change],
    "light.temporization": [Light.on_temporization_change, Dimmer.on_temporization_change],
    "light.luminosity": [Dimmer.on_luminosity_change], "light.hsv": [Dimmer.on_hsv_change], "light.white": [Dimmer.on_white_temp_change],
    "automation.status": [Automation.on_status_change], "camera.status": [Camera.on_status_change],
    "energy.511": energy("on_daily_totalizers_hourly"), "energy.512": energy("on_monthly_average_hourly"),
    "energy.513": energy("on_monthly_totalizers_current_year"), "energy.514": energy("on_monthly_totalizers_last_year"),
    "energy.250": energy("on_stop_go_status"), "energy.113": energy("on_instant_power"), "energy.51": energy("on_energy_unit_totalizer"),
    "energy.52": energy("on_energy_unit_per_month"), "energy.53": energy("on_partial_totalizer_current_month"),
    "energy.54": energy("on_partial_totalizer_current_day"), "energy.71": energy("on_actuators_info"),
    "energy.72": energy("on_totalizer_since_reset"), "energy.73": energy("on_differential_current_level"),
    **{"gateway." + n: gateway(n) for n in ("0", "1", "10", "11", "12", "15", "16", "19", "22", "23", "24")},
}
EVENTS = list(REGISTER)
NAMES = [(StopGo, "StopGo"), (EnergyManagement, "EnergyManagement"), (Dimmer, "Dimmer"), (Light, "Light"), (Automation, "Automation"),
         (Camera, "Camera"), (Gateway, "Gateway")]
CAMERA_WHATS = [0, 9, 120, 121, 130, 131, 140, 141, 150, 151, 160, 161, 170, 171, 180, 181] + [300 + 10 * x + y for x in range(1, 5) for y in range(1, 5)]
QUERY = {"energy.113": "get_active_power", "energy.51": "get_energy_unit_totalizer", "energy.52": "get_energy_unit_per_month",
         "energy.53": "get_partial_totalizer_current_month", "energy.54": "get_partial_totalizer_current_day", "energy.71": "get_actuators_info",
         "energy.72": "get_totalizers", "energy.73": "get_differential_current_level", "gateway.0": "get_time", "gateway.1": "get_date",
         "gateway.10": "get_ip", "gateway.11": "get_netmask", "gateway.12": "get_macaddress", "gateway.15": "get_model", "gateway.16": "get_firmware",
         "gateway.19": "get_uptime", "gateway.22": "get_datetime", "gateway.23": "get_kernel_version", "gateway.24": "get_distribution_version",
         "light.temporization": "temporization_request", "light.luminosity": "request_current_brightness_speed", "light.hsv": "request_current_hsv",
         "light.white": "request_current_white_temperature"}


# ---- frames -------------------------------------------------------------------------
def where(rng, ev):
    kind = ev.split(".")[0]
    return rng.choice({"light": cat.LIGHT_WHERE, "automation": cat.LIGHT_WHERE, "camera": cat.CAMERA_WHERE, "gateway": [""],
                       "energy": cat.ADDRESSES["EnergyManagement"]}[kind])


def event(rng, ev, w=None):
    """A frame of the event."""
    w = where(rng, ev) if w is None else w
    kind, n = ev.split(".")
    if ev == "light.status":
        what = rng.choice([str(rng.choice([*range(0, 19), *range(20, 30)])), "0", "1", "1000#0", "1000#1", "0#5", "1#255", "10#7", "1000#%d" % rng.randrange(19),
                           "18", "1000#10", "1000#0#1"])
        return "*1*%s*%s##" % (what, w)
    if ev == "automation.status":
        return "*2*%d*%s##" % (rng.randrange(3), w)
    if ev == "camera.status":
        return "*7*%d*%s##" % (rng.choice(CAMERA_WHATS), w)
    if kind == "light":
        return "*#1*%s*%s*%s##" % (w, {"temporization": 2, "luminosity": 1, "hsv": 12, "white": 14}[n], "*".join(dcat.values(rng, QUERY[ev])))
    if kind == "gateway":
        return "*#13*%s*%s%s*%s##" % (w, rng.choice(["", "", "", "#"]), n, "*".join(dcat.values(rng, QUERY[ev])))
    m, d = rng.randrange(1, 13), rng.randrange(1, 32)
    if n == "511":
        dim, v = "511#%d#%d" % (m, d), [str(rng.randrange(1, 26)), dcat.energy(rng)]
    elif n == "512":
        dim, v = "512#%d" % m, [str(rng.randrange(1, 26)), dcat.energy(rng)]
    elif n in ("513", "514"):
        dim, v = "%s#%d" % (n, m), [str(d), dcat.energy(rng)]
    elif n == "250":
        dim, v = "250", [format(rng.randrange(8192), "013b")]
    elif n == "52":
        dim, v = "52#%d#%d" % (rng.randrange(100), m), [dcat.energy(rng)]
    elif n == "72":
        dim, v = "72#%d" % rng.choice([1, 2]), dcat.values(rng, "get_totalizers")
    else:
        dim, v = n, dcat.values(rng, QUERY[ev])
    return "*#18*%s*%s*%s##" % (w, dim, "*".join(v))


UNKNOWN_WHO = [0, 3, 4, 5, 6, 8, 14, 15, 16, 17, 22, 24, 25, 1001, 1004, 1013, 1018]


def junk(rng):
    """A frame that is not a supported event."""
    d = rng.randrange
    lw = rng.choice(cat.LIGHT_WHERE)
    ew = rng.choice(cat.ADDRESSES["EnergyManagement"])
    return rng.choice([
        lambda: rng.choice(["*#*1##", "*#*0##"]),                                     # acknowledgements
        lambda: rng.choice(["*99*1##", "*7*9##", "*1##", "*##", "*#603356072##", "*1*1*11*5##", "*98*1##", "*999*1*11##", "*#999*1*2##", "*7*120##", "***##"]),
        lambda: "*%d*%d*%d##" % (rng.choice(UNKNOWN_WHO), d(50), d(100)),              # unsupported WHO
        lambda: "*#%d*%d*%d*%d##" % (rng.choice(UNKNOWN_WHO), d(100), d(20), d(99)),
        lambda: "*#%d*%s##" % (rng.choice([1, 2, 7, 13, 18]), rng.choice(["11", "", "51", "0"])),         # requests
        lambda: "*#%d*%s*%d##" % (rng.choice([1, 2, 7, 13, 18]), rng.choice(["11", "51"]), rng.choice([0, 1, 2, 12, 113, 51])),
        lambda: "*#1*%s*#%d*%d*%d*%d##" % (lw, rng.choice([1, 2, 12, 14]), d(100, 200), d(100), d(100)),  # writings
        lambda: "*#18*%s*#%s*%d##" % (ew, rng.choice(["1200#1", "113", "51"]), d(100)),
        lambda: "*#%d*%s*%d*%d##" % (rng.choice([2, 7]), lw, d(20), d(50)),             # dimensions of items without dimensions
        lambda: "*#1*%s*%d*%d*%d##" % (lw, rng.choice([3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 20, 113, 1000]), d(50), d(50)),
        lambda: "*2*%s*%s##" % (rng.choice(["3", "9", "10", "50", "1#1", "00", "01", "#1", ""]), lw),
        lambda: "*7*%s*4001##" % rng.choice(["1", "2", "10", "119", "122", "310", "315", "345", "351", "0#1", "00", ""]),
        lambda: "*13*%d*##" % d(30), lambda: "*18*%d*%s##" % (rng.choice([26, 27, 57, 71, 73]), ew),
        lambda: "*#13**%s*%d*%d*%d*%d##" % (rng.choice(["2", "3", "9", "13", "14", "17", "18", "20", "21", "25", "99", "0#1", "00"]), d(24), d(60), d(60), d(2)),
        # values that are missing or mean nothing
        lambda: "*#1*%s*%s##" % (lw, rng.choice(["2*1", "2*1*2", "2*1*2*", "2*1**3", "1*100", "1**5", "1*100*", "12*1*2", "12*1", "12*1**2", "14*", "2*", "1*", "12*"])),
        lambda: "*#13**%s##" % rng.choice([
            "0*12*30", "0*12*30*15", "0*25*00*00*001", "0*12*60*00*001", "0*12*30*61*001", "0*12*30**001", "0*12*30*15*001*7", "0*", "1*01*31*04*2024",
            "1*01*29*02*2023", "1*01*00*01*2024", "1*01*01*13*2024", "1*01*01*00*2024", "1*01*01*01*0", "1*01*01*01", "1*01*01*01*", "10*1*2*3", "10*1*2*3*256",
            "10*1*2*3*", "10*1*2*3*4*5", "11*255*255*0", "11*255*255*0*0*0", "11*255*255**0", "12*1*2*3*4*5", "12*1*2*3*4*5*6*7", "12*1*2*3**5*6", "16*1*2", "16*1",
            "19*1*2*3", "19*1*2*3*", "19*99999999999*1*2*3", "19*12345678901234567890*0*0*0", "19*1*99999999999999999999*1*1", "#19*99999999999*1*2*3", "22*12*30*00*001*03*10*07", "22*12*30*00*001*03*31*06*2024", "22*24*30*00*001*03*10*07*2024", "23*1*2", "24*1", "23*1",
            "#0*12*30", "#1*01*30*02*2024", "#22*12*30"]),
        lambda: "*#18*%s*%s##" % (ew, rng.choice([
            "113*", "113*1#2", "51*", "52*5", "52#24*5", "52#24#5*", "53*", "54*", "511#1*1*2", "511*1*2", "511#1#2*1", "511#1#2*1*", "511#1#2**5", "512*1*2",
            "512#1*1", "512#1**5", "513*1*2", "513#1*3", "514*3*4", "514#1*3", "250*", "250*1", "250*010101", "250*000000000000", "71*1*0*1*0*1", "71*", "71*1*0**0*1*2",
            "72#1*5*1*1*2024*1", "72*5*1*1*2024*1*1", "72#1*5*31*02*2024*1*1", "72#1*5*1*13*2024*1*1", "72#1*5*1*1*2024*24*0", "72#1*5*1*1*2024*1*60", "72#1**1*1*2024*1*1",
            "73*", "1200*1", "251*1", "252*0", "263*1", "99*1", "510*5", "74*1", "0*1", "#5*1"])),
        lambda: "*#18*%s*%s##" % (rng.choice(["0", "2", "21", "31", "61", "71", "7", "5", "1", "", "81#0", "71#1", "#1", "1#0", "5#1", "11#4#01", "51#0", "7#0", "00", "9"]),
                                   rng.choice(["113*5", "51*7", "250*0000000000001", "71*1*0*1*0*1*2"])),
    ])()


# ---- a history ------------------------------------------------------------------------
class Failure(Exception):
    pass


async def unseen(*args):
    pass


class World:
    def __init__(self, rng, events=1, commands=1):
        self.rng = rng
        self.alive = True
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        kinds = [SessionType.EventSession] * events + [rng.choice([SessionType.CommandSession, SessionType.OldCommandSession]) for _ in range(commands)]
        # the loop is the current one if none is given
        given = {} if rng.random() < .5 else {"loop": self.loop}
        self.clients = [Client("10.0.0.%d" % (i + 1), 20000, "12345", t, **given) for i, t in enumerate(kinds)]
        self.conns = [None] * len(kinds)
        self.tasks = [None] * len(kinds)
        self.items = []
        self.calls, self.done = [], []
        self.rec = {"k": "events", "n": len(kinds), "ops": []}
        self.ncb = 0

    def item(self, it):
        for i, x in enumerate(self.items):
            if x is it:
                n = i + 1
                break
        else:
            self.items.append(it)
            n = len(self.items)
        cls = next((name for c, name in NAMES if isinstance(it, c)), type(it).__name__)
        bind = next((i + 1 for i, c in enumerate(self.clients) if c is getattr(it, "client", None)), 0)
        try:
            w, who = it.where.string, it.who.value
        except Exception as e:
            w, who = "?" + type(e).__name__, "?"
        return {"id": n, "cls": cls, "who": codes(who), "w": codes(w), "bind": bind}

    def enter(self, cb, args):
        if self.alive:
            it = self.item(args[0]) if args else {"id": 0, "cls": "", "who": [], "w": [], "bind": 0}
            self.calls.append({"cb": cb, "item": it, "vals": [canon(v) for v in args[1:]]})
        return self.alive

    def callback(self, cb, kind, d):
        async def idle():
            pass

        async def coroutine(*args):
            if not self.enter(cb, args):
                return
            if kind == "slow":
                await asyncio.sleep(d * .1 - .05)
                self.done.append(cb)
            elif kind == "raise":
                raise RuntimeError("callback %d" % cb)
            elif kind == "late":
                await asyncio.sleep(.3)
                raise ValueError("callback %d" % cb)
            elif kind == "cancel":
                raise asyncio.CancelledError()
            elif kind == "invalid":
                raise InvalidTag("callback")
            elif kind == "forever":
                self.forever = asyncio.get_running_loop().create_future()
                await self.forever
            elif kind == "close":
                await self.clients[d - 1].close()

        def sync(*args):
            if self.enter(cb, args):
                raise RuntimeError("callback %d" % cb)
            return idle()

        def none(*args):
            return None if self.enter(cb, args) else idle()

        async def arity():
            pass
        return {"sync": sync, "none": none, "arity": arity}.get(kind, coroutine)

    def do(self, op, c=1, **kw):
        loop, rng = self.loop, self.rng
        o = {"op": op, "c": c, **kw}
        client, conn = self.clients[c - 1], self.conns[c - 1]
        if op == "reg":
            self.ncb += 1
            o["cb"] = self.ncb
            rng.choice(REGISTER[o["ev"]])(rng.choice(FORMS)(self.callback(self.ncb, o["kind"], o["d"])))
            # one that is registered again and again takes no place of the others
            if rng.random() < .2:
                for _ in range(rng.choice([1, 2])):
                    rng.choice(REGISTER[o["ev"]])(unseen)
        elif op in ("start", "reopen"):
            n = len(loop.connections)

            async def reopen():
                await client.close()
                await client.start()
            t = loop.task(client.start() if op == "start" else reopen())
            loop.settle()
            conn = self.conns[c - 1] = loop.connections[n]
            for _ in range(2):
                conn.send("*#*1##")
                loop.settle()
            if not t.done() or t.exception() is not None:
                raise Failure("start")
            conn.poll()
            if op == "reopen":
                loop.advance(o["d"] * .1)
        elif op == "loop":
            b = o["bind"]
            t = self.tasks[c - 1] = loop.task(client.loop() if b == c and rng.random() < .5 else client.loop(client=self.clients[b - 1]))
            loop.settle()
        elif op == "recv":
            texts = o.pop("texts")
            o["frames"] = [codes(t) for t in texts]
            data = "".join(texts)
            end = o["end"]
            if end == "bad":
                data += rng.choice(["x", "*1*1*a##", "*1*\xff", "*1*1*11", ""]) + rng.choice(["y##", "\xe9##", "*1 1##"]) + rng.choice(["", "*1*1*11##"])
            if end == "reset":
                t = loop.task(client.send_message(ACK(), force=True))
                loop.settle()
            how = rng.choice(["one", "frames", "cuts"])
            cuts = sorted({0, len(data), *([rng.randrange(len(data) + 1) for _ in range(rng.randrange(1, 6))] if how == "cuts" and data else [])})
            parts = texts + [data[sum(map(len, texts)):]] if how == "frames" else [data[a:b] for a, b in zip(cuts, cuts[1:])]
            for p in parts:
                if p:
                    conn.send(p)
                    if how != "one" or end in ("none", "bad", "reset"):
                        loop.settle()
            if end == "half":
                import socket
                conn.sock.shutdown(socket.SHUT_WR)
            elif end == "eof":
                conn.poll()
                conn.close()
            elif end == "reset":
                conn.close()
            loop.settle()
        elif op == "close":
            t = loop.task(client.close())
            loop.settle()
            if t.exception() is not None:
                raise Failure("close")
        elif op == "wait":
            loop.advance(o["d"] * .1)
        elif op == "get":
            who, w = o.pop("who"), o.pop("w")
            try:
                it = client.get_item(Who(who), Where(w), client=self.clients[o["bind"] - 1])
                o["st"], o["item"] = "ok", self.item(it)
            except Exception as e:
                o["st"] = "key" if isinstance(e, KeyError) else "tag" if isinstance(e, InvalidTag) else "other " + type(e).__name__
                o["item"] = {"id": 0, "cls": "", "who": [], "w": [], "bind": 0}
            o["who"], o["w"] = codes(who), codes(w)
        o["calls"], o["done"] = self.calls, self.done
        self.calls, self.done = [], []
        o["loops"] = [self.state(t) for t in self.tasks]
        self.rec["ops"].append(o)

    @staticmethod
    def state(t):
        if t is None:
            return "none"
        if not t.done():
            return "running"
        if t.cancelled():
            return "cancelled"
        return "ok" if t.exception() is None else "raised " + type(t.exception()).__name__

    def finish(self):
        self.alive = False
        self.loop.finish()
        return self.rec


# ---- scenarios: functions of (rng) that return a record ---------------------------------
def values_history(rng, n=30):
    """Every kind of event has a callback; a stream of events, one at a time and in bursts."""
    w = World(rng, 1, 1)
    w.do("start", 1)
    evs = EVENTS[:]
    rng.shuffle(evs)
    for ev in evs:
        for _ in range(rng.choice([1, 1, 1, 2])):
            w.do("reg", ev=ev, kind="plain", d=0)
    w.do("loop", 1, bind=rng.choice([1, 2]))
    for _ in range(n):
        texts = [event(rng, rng.choice(EVENTS)) for _ in range(rng.choice([1, 1, 2, 5]))]
        w.do("recv", 1, texts=texts, end="none")
    return w.finish()


def one_event(ev):
    def run(rng):
        w = World(rng, 1, 1)
        w.do("start", 1)
        k = rng.choice([1, 2, 3])
        for _ in range(k):
            w.do("reg", ev=ev, kind="plain", d=0)
        others = [e for e in EVENTS if e != ev]
        for e in rng.sample(others, 3):
            w.do("reg", ev=e, kind="plain", d=0)
        w.do("loop", 1, bind=1)
        for _ in range(40):
            w.do("recv", 1, texts=[event(rng, ev)], end="none")
        for e in others:
            w.do("recv", 1, texts=[event(rng, e)], end="none")
        return w.finish()
    return run


def addresses(rng):
    """Events of few kinds from many addresses, again and again."""
    w = World(rng, 2, 1)
    w.do("start", 1)
    w.do("start", 2)
    for ev in ("light.status", "automation.status", "camera.status", "energy.113", "gateway.15", "light.hsv"):
        w.do("reg", ev=ev, kind="plain", d=0)
    w.do("loop", 1, bind=3)
    w.do("loop", 2, bind=2)
    for _ in range(40):
        c = rng.choice([1, 2])
        w.do("recv", c, texts=[event(rng, rng.choice(["light.status", "automation.status", "camera.status", "energy.113", "gateway.15", "light.hsv"]))], end="none")
    return w.finish()


BADKINDS = ["raise", "late", "cancel", "invalid", "forever", "sync", "none", "arity", "slow"]


def junk_history(rng):
    """Unsupported frames between events; callbacks that fail in every way."""
    w = World(rng, 1, 1)
    w.do("start", 1)
    evs = rng.sample(EVENTS, 8) + ["light.status", "energy.113", "gateway.0", "automation.status"]
    for ev in EVENTS:
        w.do("reg", ev=ev, kind="plain", d=0)
    if rng.random() < .5:
        for ev in evs:
            for kind in rng.sample(BADKINDS, 2) + ["plain"]:
                w.do("reg", ev=ev, kind=kind, d=rng.randrange(1, 30))
    w.do("loop", 1, bind=1)
    for _ in range(30):
        texts = [junk(rng) if rng.random() < .7 else event(rng, rng.choice(evs)) for _ in range(rng.choice([1, 1, 2, 4]))]
        w.do("recv", 1, texts=texts, end="none")
        if rng.random() < .2:
            w.do("wait", d=rng.choice([1, 5, 30]))
    w.do("wait", d=100)
    w.do("recv", 1, texts=[event(rng, "light.status")], end="none")
    return w.finish()


def failing(kind):
    def run(rng):
        """One failing callback among good ones, registered before and after it."""
        w = World(rng, 1, 1)
        w.do("start", 1)
        evs = rng.sample(EVENTS, 3) + ["light.status", "gateway.0"]
        for ev in evs:
            order = ["plain", kind, "plain"]
            rng.shuffle(order)
            for k in order:
                w.do("reg", ev=ev, kind=k, d=rng.randrange(1, 60))
        w.do("loop", 1, bind=1)
        for _ in range(15):
            w.do("recv", 1, texts=[event(rng, rng.choice(evs)) for _ in range(rng.choice([1, 2, 3]))], end="none")
            if rng.random() < .4:
                w.do("wait", d=rng.choice([1, 3, 10, 100]))
        w.do("wait", d=100)
        w.do("recv", 1, texts=[event(rng, ev) for ev in evs], end="none")
        return w.finish()
    return run


def ending(end, loop_first, n):
    def run(rng):
        w = World(rng, 2, 1)
        evs = rng.sample(EVENTS, 3) + ["light.status"]
        w.do("start", 1)
        w.do("start", 2)
        for ev in evs:
            w.do("reg", ev=ev, kind=rng.choice(["plain", "plain", "slow"]), d=rng.randrange(1, 30))
        closer = end == "callback"
        if closer:
            w.do("reg", ev="light.status", kind="close", d=1)
        w.do("loop", 2, bind=2)
        if loop_first:
            w.do("loop", 1, bind=rng.choice([1, 3]))
            w.do("wait", d=rng.choice([1, 60, 100000]))
        quiet = [e for e in evs if e != "light.status"] if closer else evs
        for _ in range(rng.randrange(3)):
            w.do("recv", 1, texts=[rng.choice([junk, lambda r: event(r, rng.choice(quiet))])(rng)], end="none")
            w.do("recv", 2, texts=[event(rng, rng.choice(quiet))], end="none")
        texts = [event(rng, rng.choice(quiet)) if rng.random() < .8 else junk(rng) for _ in range(n)]
        if closer:
            texts = [t for t in texts if not t.startswith("*1*")]
            k = rng.randrange(len(texts) + 1)
            texts = texts[:k] + [event(rng, "light.status")] + texts[k:]
            if not loop_first:
                w.do("loop", 1, bind=1)
            w.do("recv", 1, texts=texts, end="none")
        elif end in ("close", "reopen"):
            if texts:
                w.do("recv", 1, texts=texts, end="none")
            if end == "close":
                w.do("close", 1)
            else:
                w.do("reopen", 1, d=12)
        else:
            w.do("recv", 1, texts=texts, end=end)
            if not loop_first:
                w.do("loop", 1, bind=1)
        for _ in range(2):
            w.do("wait", d=12)
        w.do("recv", 2, texts=[event(rng, rng.choice(quiet))], end="none")
        if closer or end in ("close", "reopen") or rng.random() < .7:
            if not (closer or end in ("close", "reopen")):
                if rng.random() < .5:
                    w.do("close", 1)
                    w.do("start", 1)
                else:
                    w.do("reopen", 1, d=12)
            elif end != "reopen":
                # the client is used again
                w.do("start", 1)
            w.do("loop", 1, bind=rng.choice([1, 3]))
            w.do("wait", d=rng.choice([1, 100]))
            w.do("recv", 1, texts=[event(rng, rng.choice(quiet)) for _ in range(2)], end="none")
            if not closer:
                w.do("recv", 1, texts=[event(rng, rng.choice(quiet))], end=rng.choice(["eof", "half", "bad", "reset"]))
                w.do("wait", d=12)
        w.do("wait", d=30)
        return w.finish()
    return run


def idle(rng):
    w = World(rng, 1, 1)
    w.do("start", 1)
    w.do("reg", ev="light.status", kind="plain", d=0)
    w.do("loop", 1, bind=1)
    for _ in range(6):
        w.do("wait", d=rng.choice([1, 49, 50, 51, 52, 100, 301, 36000, 1000000]))
        if rng.random() < .5:
            w.do("recv", 1, texts=[rng.choice([junk(rng), event(rng, "light.status")])], end="none")
    w.do("recv", 1, texts=[event(rng, "light.status")], end="none")
    return w.finish()


GETS = [(1, cat.LIGHT_WHERE), (2, cat.LIGHT_WHERE), (7, cat.CAMERA_WHERE), (13, [""]), (18, cat.ADDRESSES["EnergyManagement"]),
        (18, ["0", "21", "71", "7", "5", "1", "81#0", "71#1", "#1", "1#0", "5#1", "51#0", "7#0", ""])] + [(w, ["11", "51", "0"]) for w in UNKNOWN_WHO]


def items_history(rng):
    w = World(rng, 2, 2)
    w.do("start", 1)
    for ev in ("light.status", "automation.status", "camera.status", "energy.113", "gateway.15", "light.white"):
        w.do("reg", ev=ev, kind="plain", d=0)
    pool = []
    for _ in range(10):
        who, ws = rng.choice(GETS[:6] * 4 + GETS)
        pool.append((who, rng.choice(ws)))
    # the same place for different WHOs, and places that differ little
    pool += [(1, "11"), (2, "11"), (18, "11"), (1, "1"), (1, "#1"), (2, "1"), (1, "01"), (18, "51"), (18, "5100"), (1, "11#4#01"), (1, "11#4#01#2"), (2, "0#4#1#7"), (2, "0#4#1#07"), (1, "00"), (1, "11#4"), (18, "71#0#1")]
    running, up = False, True
    for _ in range(60):
        x = rng.random()
        who, wh = rng.choice(pool)
        if x < .05:
            # the items outlive the connections of their client
            if up and rng.random() < .3:
                w.do("recv", 1, texts=[], end=rng.choice(["eof", "half", "bad"]))
                w.do("wait", d=12)
            if up:
                w.do("close", 1)
                w.do("wait", d=1)
            else:
                w.do("start", 1)
            running, up = False, not up
        elif x < .6:
            w.do("get", rng.choice([1, 1, 2, 3]), who=str(who), w=wh, bind=rng.choice([1, 2, 3, 4]))
        elif x < .65 and not running and up:
            w.do("loop", 1, bind=rng.choice([1, 3, 4]))
            running = True
        elif running:
            kind = {1: ["light.status", "light.white"], 2: ["automation.status"], 7: ["camera.status"], 13: ["gateway.15"], 18: ["energy.113"]}.get(who)
            if kind is None:
                w.do("recv", 1, texts=["*%d*1*%s##" % (who, wh)], end="none")
            elif rng.random() < .3:
                w.do("recv", 1, texts=["*#%d*%s*99*1##" % (who, wh)], end="none")
            else:
                w.do("recv", 1, texts=[event(rng, rng.choice(kind), wh)], end="none")
    return w.finish()


def every_item(rng):
    """get_item for every address, twice, from two clients."""
    w = World(rng, 1, 2)
    asks = [(who, wh) for who, ws in GETS for wh in ws]
    rng.shuffle(asks)
    for who, wh in asks:
        w.do("get", 1, who=str(who), w=wh, bind=rng.choice([1, 2, 3]))
    rng.shuffle(asks)
    for who, wh in asks:
        w.do("get", rng.choice([1, 2]), who=str(who), w=wh, bind=rng.choice([1, 2, 3]))
    return w.finish()


def burst(rng):
    """Hundreds of events at once."""
    w = World(rng, 1, 1)
    evs = rng.sample(EVENTS, 3) + ["light.status"]
    w.do("start", 1)
    for ev in evs:
        w.do("reg", ev=ev, kind="plain", d=0)
    first = rng.random() < .5
    if first:
        w.do("loop", 1, bind=1)
    w.do("recv", 1, texts=[event(rng, rng.choice(evs)) for _ in range(rng.choice([70, 140, 280, 530]))], end="none")
    if not first:
        w.do("loop", 1, bind=1)
    for _ in range(120):
        w.do("recv", 1, texts=[event(rng, rng.choice(evs))], end="none")
    return w.finish()


def many_callbacks(rng):
    """Many callbacks for the same event."""
    w = World(rng, 1, 1)
    ev, other = rng.sample(EVENTS, 2)
    w.do("start", 1)
    for _ in range(rng.choice([17, 40, 70, 140])):
        w.do("reg", ev=ev, kind="plain", d=0)
    w.do("reg", ev=other, kind="plain", d=0)
    w.do("loop", 1, bind=1)
    for _ in range(5):
        w.do("recv", 1, texts=[event(rng, ev), event(rng, other)], end="none")
    w.do("reg", ev=ev, kind="plain", d=0)
    w.do("recv", 1, texts=[event(rng, ev), event(rng, other)], end="none")
    return w.finish()


def long_idle(days):
    def run(rng):
        w = World(rng, 1, 1)
        w.do("start", 1)
        w.do("reg", ev="light.status", kind="plain", d=0)
        w.do("loop", 1, bind=1)
        w.do("wait", d=864000 * days)
        for _ in range(2):
            w.do("recv", 1, texts=[event(rng, "light.status")], end="none")
        return w.finish()
    return run


def many_items(n, through, keep=True):
    """Many items of one client, then each of them again; without keep, the client is the only one that refers to them."""
    def run(rng):
        w = World(rng, 1, 1)
        w.do("start", 1)
        heard = []
        if through == "loop":
            async def hear(item, *_):
                heard.append(item)
            Light.on_status_change(hear)
            Automation.on_status_change(hear)
            w.do("loop", 1, bind=1)
        client = w.clients[0]

        def get(who, where):
            if through == "get":
                return client.get_item(Who(who), Where(where), client=client)
            heard.clear()
            w.conns[0].send("*%s*1*%s##" % (who, where))
            w.loop.settle()
            return heard[0] if len(heard) == 1 else None
        keys = [(rng.choice("12"), str(i)) for i in range(1, n + 1)]
        objects = {}

        def ident(it):
            if it is None:
                return {"id": 0, "who": [], "w": []}
            if keep:
                n = objects.setdefault(id(it), (len(objects) + 1, it))[0]
            else:
                # recognised by what was attached to it
                n = it.__dict__.setdefault("_seen_by_check", len(objects) + 1)
                objects.setdefault(n)
            return {"id": n, "who": codes(it.who.value), "w": codes(it.where.string)}
        r = {"k": "many", "through": through, "keys": [{"who": codes(a), "w": codes(b)} for a, b in keys], "first": [], "again": []}
        r["first"] = [ident(get(*k)) for k in keys]
        heard.clear()
        gc.collect()
        again = list(range(n)) if n <= 1000 else sorted({*range(60), *range(n - 60, n), *(rng.randrange(n) for _ in range(200))})
        rng.shuffle(again)
        r["again"] = [{"i": i + 1, "it": ident(get(*keys[i]))} for i in again]
        w.finish()
        return r
    return run


def scripted(ops, mode):
    """A behaviour generated from OwnEventsMC."""
    def run(rng):
        w = World(rng, 2, 1)
        hot = rng.sample(EVENTS, 3) + ["light.status"]
        for o in ops:
            op, c = o["op"], o["c"]
            if op == "reg":
                kind = o["kind"]
                w.do("reg", ev=hot[o["n"] % len(hot)], kind=kind, d=c if kind == "close" else rng.randrange(1, 40))
            elif op == "recv":
                texts = [junk(rng) if x == "junk" else event(rng, rng.choice(hot)) if x == "event" else event(rng, rng.choice(EVENTS)) for x in o["what"]]
                w.do("recv", c, texts=texts, end=o["end"])
            elif op == "wait":
                w.do("wait", d=o["n"])
            elif op == "loop":
                w.do("loop", c, bind=o["n"])
            elif op == "reopen":
                w.do("reopen", c, d=o["n"])
            else:
                w.do(op, c)
        return w.finish()
    return run


_JOBS = None


def _batch(args):
    seed, lo, hi = args
    out = []
    for i in range(lo, hi):
        out.append(_JOBS[i](random.Random("%d %d" % (seed, i))))
    return out


def run_all(rec, jobs):
    """Histories in child processes: registrations are global, so a process is used for a few only."""
    global _JOBS
    _JOBS = jobs
    size = 12
    tasks = [(rec.seed, lo, min(lo + size, len(jobs))) for lo in range(0, len(jobs), size)]
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for records in pool.imap(_batch, tasks, chunksize=1):
            for r in records:
                rec.emit(r)


def scripts_of(path, mode):
    return [scripted(json.loads(line)["ops"], mode) for line in open(path)]


def c21(rec, scripts):
    k = 10 if rec.thorough else 1
    run_all(rec, [burst] * (8 * k) + [many_callbacks] * (8 * k) + [one_event(ev) for ev in EVENTS] * k + [values_history] * (40 * k) + [addresses] * (20 * k) + scripts_of(scripts, "C21"))


def c22(rec, scripts):
    k = 10 if rec.thorough else 1
    run_all(rec, [junk_history] * (80 * k) + [failing(kind) for kind in BADKINDS] * (6 * k) + scripts_of(scripts, "C22"))


def c23(rec, scripts):
    k = 10 if rec.thorough else 1
    run_all(rec, [ending(e, first, n) for e in ("eof", "half", "reset", "bad", "close", "callback", "reopen") for first in (True, False) for n in (0, 1, 2, 5, 40, 200)
                  for _ in range(2 * k)] + [idle] * (20 * k)
            + [long_idle(d) for d in ((1, 8) if not rec.thorough else (1, 8, 32, 400))] + [burst] * (3 * k) + scripts_of(scripts, "C23"))


def c24(rec, scripts):
    k = 10 if rec.thorough else 1
    run_all(rec, [many_items(n, t) for n in (70, 140, 300, 600, 1100, 2200) + ((10000,) if rec.thorough else ()) for t in ("get", "loop")]
            + [many_items(30, t, False) for t in ("get", "loop")] + [items_history] * (120 * k) + [every_item] * (4 * k) + [addresses] * (20 * k) + scripts_of(scripts, "C24"))
