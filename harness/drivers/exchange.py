"""Commands and requests of the items, one after the other and concurrently (C15, C16, C17)."""
import asyncio
import datetime
import json

from pyown.client import Client, SessionType
from pyown.exceptions import ResponseError
from pyown.items import EnergyManagement, Gateway, Light
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy import ActuatorStatus, StopGo
from pyown.items.gateway.gateway import GatewayModel
from pyown.items.lighting import Dimmer
from pyown.tags import Value

from .. import catalogue
from ..vloop import VLoop, split_frames

UTC = datetime.timezone.utc
ITEMS = {}
DONORS = []


def kept(cls):
    """The items of a client are used again for the same address.  An item may come from another client (DONORS)."""
    def get(client, *where):
        mine = ITEMS.setdefault(id(client), {})
        if (cls, where) not in mine:
            used = [d for d in DONORS if (cls, where) in ITEMS.get(id(d), {})]
            if used:
                mine[cls, where] = ITEMS[id(used[0])].pop((cls, where))
                mine[cls, where].client = client
            elif DONORS:
                mine[cls, where] = cls(DONORS[0], *where)
                mine[cls, where].client = client
            else:
                mine[cls, where] = cls(client, *where)
        return mine[cls, where]
    return get


Automation, Camera, Dimmer, EnergyManagement, Gateway, Light, StopGo = map(kept, (Automation, Camera, Dimmer, EnergyManagement, Gateway, Light, StopGo))

# (coroutine, text of the frame); a is the address
COMMANDS = [
    (lambda c, a: Light(c, a).turn_on(), "*1*1*{}##"), (lambda c, a: Light(c, a).turn_off(), "*1*0*{}##"),
    (lambda c, a: Light(c, a).blink_2_5_sec(), "*1*24*{}##"), (lambda c, a: Light(c, a).turn_on_5_min(), "*1*15*{}##"),
    (lambda c, a: Light(c, a).temporization_command(1, 2, 3), "*#1*{}*#2*1*2*3##"),
    (lambda c, a: Dimmer(c, a).turn_on(), "*1*1*{}##"), (lambda c, a: Dimmer(c, a).turn_off(7), "*1*0#7*{}##"),
    (lambda c, a: Dimmer(c, a).set_50_percent(), "*1*5*{}##"), (lambda c, a: Dimmer(c, a).up_percent(10, 5), "*1*30#10#5*{}##"),
    (lambda c, a: Dimmer(c, a).set_hsv(359, 1, 100), "*#1*{}*#12*359*1*100##"),
    (lambda c, a: Dimmer(c, a).set_white_temperature(300), "*#1*{}*#14*300##"),
    (lambda c, a: Dimmer(c, a).set_brightness_with_speed(150, 9), "*#1*{}*#1*150*9##"),
    (lambda c, a: Automation(c, a).up(), "*2*1*{}##"), (lambda c, a: Automation(c, a).down(), "*2*2*{}##"),
    (lambda c, a: Automation(c, a).stop(), "*2*0*{}##"), (lambda c, a: Camera(c, a).receive_video(), "*7*0*{}##"),
    (lambda c, a: EnergyManagement(c, "5" + a).start_sending_instant_power(3), "*#18*5{}*#1200#1*3##"),
    (lambda c, a: EnergyManagement(c, "5" + a).stop_sending_instant_power(), "*#18*5{}*#1200#1*0##"),
    (lambda c, a: EnergyManagement(c, "7" + a + "#0").enable_actuator(), "*18*71*7{}#0##"),
    (lambda c, a: EnergyManagement(c, "5" + a).reset_totalizers(1), "*18*75#1*5{}##"),
    (lambda c, a: StopGo(c, "1" + a).enable_automatic_reset(), "*18*26*1{}##"),
    (lambda c, a: Light(c, a).send_normal_message("11"), "*1*11*{}##"),
    (lambda c, a: Light(c, a).send_dimension_writing("9", Value(4)), "*#1*{}*#9*4##"),
]
# commands whose frame does not depend on the address
PLAIN = [
    (lambda c, a: Camera(c, a).zoom_in(), "*7*120##"), (lambda c, a: Camera(c, a).free_resources(), "*7*9##"),
    (lambda c, a: Camera(c, a).display_dial(2, 3), "*7*323##"), (lambda c, a: Camera(c, a).decrease_quality(), "*7*181##"),
    (lambda c, a: Gateway(c).set_time(datetime.time(1, 2, 3, tzinfo=UTC)), "*#13**#0*01*02*03*000##"),
    (lambda c, a: Gateway(c).set_date(datetime.date(2024, 2, 29)), "*#13**#1*04*29*02*2024##"),
    (lambda c, a: Gateway(c).set_datetime(datetime.datetime(2024, 2, 29, 1, 2, 3, tzinfo=UTC)), "*#13**#22*01*02*03*000*04*29*02*2024##"),
]


def first(v):
    return int(str(v[0]))


# (async iterator, frame, response with the id, the id in a value)
STATUS = [
    (lambda c, a: Light(c, a).get_status(), "*#1*{}##", "*1*1*{}##", first),
    (lambda c, a: Light(c, a).get_status(), "*#1*{}##", "*1*0*{}##", first),
    (lambda c, a: Dimmer(c, a).get_status(), "*#1*{}##", "*1*7*{}##", first),
    (lambda c, a: Automation(c, a).get_status(), "*#2*{}##", "*2*2*{}##", first),
    (lambda c, a: Camera(c, a).send_status_request(), "*#7*{}##", "*7*0*{}##", lambda m: int(str(m.where))),
    (lambda c, a: EnergyManagement(c, "5" + a).send_status_request(), "*#18*5{}##", "*18*1*{}##", lambda m: int(str(m.where))),
]
DIMS = [
    (lambda c, a: Light(c, a).temporization_request(), "*#1*{}*2##", "*#1*{}*2*1*2*3##", first),
    (lambda c, a: Light(c, a).request_working_time_lamp(), "*#1*{}*8##", "*#1*{}*8*100##", first),
    (lambda c, a: Dimmer(c, a).request_current_brightness_speed(), "*#1*{}*1##", "*#1*{}*1*150*9##", first),
    (lambda c, a: Dimmer(c, a).request_current_hsv(), "*#1*{}*12##", "*#1*{}*12*359*1*100##", first),
    (lambda c, a: Dimmer(c, a).request_current_white_temperature(), "*#1*{}*14##", "*#1*{}*14*300##", first),
    (lambda c, a: EnergyManagement(c, "5" + a).send_dimension_request("113"), "*#18*5{}*113##", "*#18*51*113*{}##", lambda m: int(m.values[0].string)),
    (lambda c, a: Light(c, a).send_dimension_request("33"), "*#1*{}*33##", "*#1*{}*33*5##", lambda m: int(str(m.where))),
]
ONE = [
    (lambda c, a: EnergyManagement(c, "5" + a).get_active_power(), "*#18*5{}*113##", "*#18*51*113*{}##", int),
    (lambda c, a: EnergyManagement(c, "5" + a).get_energy_unit_totalizer(), "*#18*5{}*51##", "*#18*51*51*{}##", int),
    (lambda c, a: EnergyManagement(c, "5" + a).get_energy_unit_per_month(3, 21), "*#18*5{}*52#21#3##", "*#18*51*52#21#3*{}##", int),
    (lambda c, a: EnergyManagement(c, "5" + a).get_partial_totalizer_current_month(), "*#18*5{}*53##", "*#18*51*53*{}##", int),
    (lambda c, a: EnergyManagement(c, "5" + a).get_partial_totalizer_current_day(), "*#18*5{}*54##", "*#18*51*54*{}##", int),
    (lambda c, a: EnergyManagement(c, "7" + a + "#0").get_differential_current_level(), "*#18*7{}#0*73##", "*#18*71#0*73*{}##", int),
]
GATEWAY = [
    (lambda c, a: Gateway(c).get_firmware(), "*#13**16##", "*#13**16*{}*1*2##", lambda v: int(v.split(".")[0])),
    (lambda c, a: Gateway(c).get_kernel_version(), "*#13**23##", "*#13**23*1*{}*2##", lambda v: int(v.split(".")[1])),
    (lambda c, a: Gateway(c).get_distribution_version(), "*#13**24##", "*#13**24*1*2*{}##", lambda v: int(v.split(".")[2])),
    (lambda c, a: Gateway(c).get_uptime(), "*#13**19##", "*#13**19*{}*3*4*5##", lambda v: v.days),
]


class Is:
    """The identity of a value that cannot carry a number: all the responses say the same."""

    def __init__(self, value):
        self.value = value


GATEWAY += [
    (lambda c, a: Gateway(c).get_time(), "*#13**0##", lambda n: "*#13**0*%02d*%02d*%02d*000##" % (n // 3600, n // 60 % 60, n % 60),
     lambda v: v.hour * 3600 + v.minute * 60 + v.second),
    (lambda c, a: Gateway(c).get_date(), "*#13**1##", lambda n: "*#13**1*00*11*12*%04d##" % (1000 + n), lambda v: v.year - 1000),
    (lambda c, a: Gateway(c).get_datetime(), "*#13**22##", lambda n: "*#13**22*01*02*03*001*00*11*12*%04d##" % (1000 + n), lambda v: v.year - 1000),
    (lambda c, a: Gateway(c).get_ip(), "*#13**10##", lambda n: "*#13**10*10*0*%d*%d##" % (n // 256, n % 256), lambda v: int(v) % 65536),
    (lambda c, a: Gateway(c).get_netmask(), "*#13**11##", "*#13**11*255*255*254*0##", Is("255.255.254.0")),
    (lambda c, a: Gateway(c).get_macaddress(), "*#13**12##", lambda n: "*#13**12*0*3*80*1*%d*%d##" % (n // 256, n % 256),
     lambda v: int("".join(v.split(":")[4:]), 16)),
    (lambda c, a: Gateway(c).get_model(), "*#13**15##", "*#13**15*4##", Is(GatewayModel("4"))),
]
ONE += [
    (lambda c, a: EnergyManagement(c, "7" + a + "#0").get_actuators_info(), "*#18*7{}#0*71##", "*#18*71#0*71*1*0*1*0*0*1##",
     Is(ActuatorStatus(disabled=True, forcing=False, threshold=True, protection=False, phase=False, advanced=True))),
    (lambda c, a: EnergyManagement(c, "5" + a).get_totalizers(2), "*#18*5{}*72#2##", lambda n: "*#18*51*72#2*%d*11*12*2023*10*11##" % n,
     lambda v: int(v[1])),
]


# Every other method that sends a command, with the frame that it sends when nothing else goes on.
MARK = "31337"


def method(cls, m, *args):
    where = {"Camera": "{}", "Gateway": "", "EnergyManagement": "5{}", "StopGo": "1{}"}.get(cls, "{}")
    if "actuator" in m:
        where = "7{}#0"

    def make(c, a):
        item = Gateway(c) if cls == "Gateway" else kept(catalogue.CLASSES[cls])(c, where.format(a))
        return getattr(item, m)(*args)
    return make


def methods():
    for cls, ms in catalogue.SIMPLE.items():
        for m in ms:
            if not (cls == "StopGo" and "actuator" in m):
                yield method(cls, m)
    for cls in ("Light", "Dimmer"):
        yield method(cls, "turn_on_30_min")
    for m in ("turn_on", "turn_off"):
        yield method("Dimmer", m, 200)
    for m in ("up_percent", "down_percent"):
        for args in ((), (7,), (7, 8), (None, 9)):
            yield method("Dimmer", m, *args)
    for m in ("start_sending_monthly_average_hourly", "start_sending_monthly_totalizers_current_year", "start_sending_monthly_totalizers_last_year"):
        yield method("EnergyManagement", m, 4)
        yield method("EnergyManagement", m, None)
    yield method("EnergyManagement", "start_sending_daily_totalizers_hourly", 5, 6)
    yield method("EnergyManagement", "start_sending_daily_totalizers_hourly", None, None)
    yield method("EnergyManagement", "force_actuator_on")
    yield method("EnergyManagement", "force_actuator_on", 10)
    yield method("EnergyManagement", "reset_totalizers", 2)
    yield method("EnergyManagement", "start_sending_instant_power", 5, 2)
    yield method("EnergyManagement", "stop_sending_instant_power", 2)
    for x in range(1, 5):
        yield method("Camera", "display_dial", x, 5 - x)


def probe(make):
    b = catalogue.Bench()

    async def run():
        await make(b.client, MARK)
    t = b.loop.task(run())
    b.loop.settle()
    frames = b.frames()
    b.close()
    t.cancelled() or t.exception()
    return frames[0].replace(MARK, "{}") if len(frames) == 1 else "no single frame"


MORE = []


def tables():
    if not MORE:
        MORE.extend((f, probe(f)) for f in methods())
    return {"cmd": COMMANDS + PLAIN + MORE, "status": STATUS, "dims": DIMS, "one": ONE + GATEWAY}


OTHERS = ["*1*1*11##", "*#1*11##", "*#13**15*4##", "*#13**15##", "*#13**#0*12*30*00*001##", "*99*9##", "*16*3##", "*#603356072##", "*#1*11*1*150*9##"]
# frames that are almost an acknowledgement
NEAR = ["*#*10##", "*#*11##", "*#*1*1##", "*#*1*0##", "*#*01##", "*#*00##", "*#*0*0##", "*#*1#1##", "*#*2##", "*#*##", "*1##", "*0##", "*#1##", "*#1*1##", "*1*1##",
        "*#*1*##", "*#*0*##", "**#*1##", "*##"]
OTHERS += NEAR
WRONG = {"status": ["*#1*11*1*150*9##", "*#13**15*4##"], "dims": ["*1*1*11##", "*2*0*21##"], "one": ["*1*1*11##", "*7*0*4000##"]}
OTHER = {k: ["*#1*11##", "*#13**15##", "*#13**#0*12*30*00*001##", "*99*9##", *NEAR] for k in ("status", "dims", "one")}


class Entry:
    def __init__(self, kind, brk, inner, top):
        self.kind, self.brk, self.inner, self.top = kind, brk, inner, top
        self.out, self.st, self.task = [], "pending", None
        self.sent = self.got = self.first = self.last = 0

    def state(self):
        if self.st == "pending" and self.task is not None and self.task.done():
            return "cancelled" if self.task.cancelled() else "other " + type(self.task.exception()).__name__
        return self.st


class Exchanges:
    def __init__(self, rng, session=SessionType.CommandSession, loop=None):
        self.rng = rng
        self.loop = loop or VLoop()
        asyncio.set_event_loop(self.loop)
        # the loop is the current one if none is given
        self.client = Client("gateway", 20000, "12345", session, **({} if rng.random() < .5 else {"loop": self.loop}))
        ITEMS.pop(id(self.client), None)
        t = self.loop.task(self.client.start())
        self.loop.settle()
        self.conn = self.loop.connections[-1]
        for _ in range(2):
            self.conn.send("*#*1##")
            self.loop.advance(.5)
        t.result()
        self.conn.poll()
        self.ex = []
        self.ids = set()
        self.nid = 100
        self.base = rng.randrange(1, 60) * 1000
        self.rec = {"k": "exchange", "ops": [], "obs": []}

    def prepare(self, kind, brk, inner, top, pick=None, addr=None):
        e = Entry(kind, brk, inner, top)
        self.ex.append(e)
        again = addr is not None
        addr = addr or str(self.base + len(self.ex))
        over = [x.addr for x in self.ex[:-1] if x.state() in ("ok", "refused")]
        if not again and over and all(x.state() != "pending" for x in self.ex[:-1]) and self.rng.random() < .3:
            # an item that was used before
            addr = self.rng.choice(over)
        e.addr = addr
        # a frame without an address must not be confused with the same frame of another exchange
        table = tables()[kind]
        v = table[pick] if pick is not None else self.rng.choice(table)
        while pick is None and "{}" not in v[1] and any(x.text == v[1] and x.state() == "pending" for x in self.ex[:-1]):
            v = self.rng.choice(table)
        e.text = v[1].format(addr)
        e.make = lambda: v[0](self.client, addr)
        if kind != "cmd":
            e.reply, e.ident = v[2], v[3]
        return e

    async def run(self, e):
        try:
            if e.kind == "cmd":
                await e.make()
            elif e.kind == "one":
                e.out.append(self.ident(e, await e.make()))
            else:
                async for v in e.make():
                    e.out.append(self.ident(e, v))
                    if e.inner:
                        await self.run(self.prepare("cmd", 99, False, False))
                    if len(e.out) >= e.brk:
                        break
            e.st = "ok"
        except ResponseError:
            e.st = "refused"
        except TimeoutError:
            e.st = "timeout"
        except asyncio.CancelledError:
            e.st = "cancelled"
            raise
        except Exception as x:
            e.st = "other " + type(x).__name__

    def ident(self, e, v):
        try:
            if isinstance(e.ident, Is):
                want = e.ident.value
                return e.first if v == want else 0
            n = e.ident(v)
            return n if n in self.ids else 0
        except Exception:
            return 0

    def observe(self, op, kind="", brk=0, inner=False, n=0, fs=()):
        sent = []
        for f in split_frames(self.conn.poll()):
            who = [i for i, e in enumerate(self.ex) if e.text == f and not e.sent and e.state() != "cancelled"] or [i for i, e in enumerate(self.ex) if e.text == f]
            if who:
                self.ex[who[0]].sent += 1
            sent.append(who[0] + 1 if who else 0)
        self.rec["ops"].append({"op": op, "kind": kind, "brk": brk, "inner": inner, "n": n, "fs": list(fs)})
        self.rec["obs"].append({"sent": sent, "res": [{"st": e.state(), "out": list(e.out)} for e in self.ex]})
        if sent and sent[-1]:
            self.last = self.ex[sent[-1] - 1]

    last = None

    def active(self):
        return self.last if self.last is not None and self.last.state() == "pending" and not (self.last.inner and self.last.out) else None

    def start(self, kind, brk=99, inner=False, pick=None, addr=None):
        e = self.prepare(kind, brk, inner, True, pick, addr)
        e.task = self.loop.task(self.run(e))
        self.loop.settle()
        self.observe("start", kind, brk, inner)

    def identity(self, e, same=False):
        """A number of its own for every response; now and then two of them say the same."""
        e.got += 1
        if same and e.last and self.rng.random() < .2:
            return e.last
        self.nid += 1
        e.first = e.first or self.nid
        e.last = self.nid
        return self.nid

    def reply(self, fs, cut=None):
        """fs: names of the frames; what they become depends on the exchange that is being answered."""
        e = self.active()
        if e is None:
            return
        texts, frames = [], []
        for f in fs:
            if e.kind == "cmd":
                frames.append({"f": f if f in ("ack", "nack") else "other", "id": 0})
                texts.append({"ack": "*#*1##", "nack": "*#*0##"}.get(f) or self.rng.choice(OTHERS))
                break
            if f == "right" or (e.inner and f in ("wrong", "other")):
                n = self.identity(e, True)
                self.ids.add(n)
                texts.append(e.reply(n) if callable(e.reply) else e.reply.format(n))
                frames.append({"f": "normal" if e.kind == "status" else "dim", "id": n})
            elif f in ("wrong", "other"):
                n = self.identity(e)
                texts.append(self.rng.choice((WRONG if f == "wrong" else OTHER)[e.kind]))
                frames.append({"f": ("dim" if e.kind == "status" else "normal") if f == "wrong" else "other", "id": n})
            else:
                texts.append("*#*1##" if f == "ack" else "*#*0##")
                frames.append({"f": f, "id": 0})
                break
        data = "".join(texts)
        for cut in sorted(cut if cut is not None else self.rng.choice([[], [], [len(data) // 2], [1, len(data) - 1], [len(texts[0])]])):
            if 0 < cut < len(data):
                self.conn.send(data[:cut])
                data = data[cut:]
                self.loop.settle()
        self.conn.send(data)
        self.loop.settle()
        self.observe("reply", fs=frames)

    def elapse(self, ms):
        ms += 3
        self.loop.advance(ms / 1000)
        self.observe("elapse", n=ms)

    def cancel(self, i):
        if i > len(self.ex) or self.ex[i - 1].sent or not self.ex[i - 1].top:
            return
        self.ex[i - 1].task.cancel()
        self.loop.settle()
        self.observe("cancel", n=i)

    def wind_up(self):
        # whatever is left is answered, and the client still works
        for _ in range(60):
            if self.active() is None:
                break
            self.reply(["right", "right", "ack"] if self.active().kind != "cmd" else ["ack"])
        self.start("cmd")
        self.reply(["ack"])
        self.start("status")
        self.reply(["right", "right", "ack"])

    def finish(self):
        self.wind_up()
        self.loop.finish()
        ITEMS.pop(id(self.client), None)
        return self.rec


def script(rng, ops, session=SessionType.CommandSession):
    x = Exchanges(rng, session)
    for o in ops:
        op = o["op"]
        if op == "start":
            x.start(o["kind"], o["brk"], o["inner"])
        elif op == "reply":
            e = x.active()
            right = "normal" if e is not None and e.kind == "status" else "dim"
            names = []
            for f in o["fs"]:
                f = f["f"]
                names.append(f if f in ("ack", "nack", "other") else "right" if f == right else "wrong")
            x.reply(names)
        elif op == "elapse":
            x.elapse(o["n"])
        elif op == "cancel":
            x.cancel(o["n"])
    return x.finish()


def again(rng, kind, pick, many):
    """The same item is asked the same thing again and again; every exchange has answers of its own."""
    x = Exchanges(rng)
    for i in range(many):
        x.start(kind, pick=pick, addr=str(x.base))
        if kind == "cmd":
            x.reply([rng.choice(["ack", "ack", "nack", "other"])])
        else:
            x.reply(rng.choice([["right", "ack"], ["right", "right", "ack"], ["right", "right", "right", "ack"], ["nack"]] if i else [["right", "ack"]]))
        if rng.random() < .3:
            x.elapse(rng.choice([100, 6000, 70000]))
    return x.finish()


def drop(rng, kind, when, pick):
    """The gateway goes away before it has answered."""
    x = Exchanges(rng)
    e = x.prepare(kind, 99, False, True, pick)
    if when == "before":
        x.conn.close()
        x.loop.settle()
    e.task = x.loop.task(x.run(e))
    x.loop.settle()
    x.conn.poll()
    if when == "reset":
        x.conn.send("*#*")
        x.loop.settle()
    x.conn.close()
    x.loop.settle()
    x.loop.advance(5.2)
    r = {"k": "drop", "kind": kind, "when": when, "text": e.text, "st": e.state(), "out": list(e.out)}
    x.loop.finish()
    return r


def abandon(rng, kind, got, wait, others):
    """A caller gives up an exchange that is not answered (any more); the gateway is silent until the others gave up, too."""
    x = Exchanges(rng)
    x.start(kind)
    e = x.ex[0]
    if got:
        x.reply(["right"] * got)
    if wait:
        x.elapse(wait)
    for k in others:
        x.start(k)
    e.task.cancel()
    x.loop.settle()
    st = e.state()
    for _ in range(len(others) + 1):
        x.elapse(5100)
    rest = [{"sent": o.sent, "st": o.state(), "out": list(o.out)} for o in x.ex[1:]]
    x.start("cmd")
    a = x.ex[-1]
    if a.sent:
        x.conn.send("*#*1##")
        x.loop.settle()
    r = {"k": "abandon", "kind": kind, "text": e.text, "got": got, "wait": wait, "st": st, "others": rest, "after": {"sent": a.sent, "st": a.state()}}
    x.loop.finish()
    ITEMS.pop(id(x.client), None)
    return r


def reopened(rng, kinds, part, later, wait):
    """The client is closed and started again while exchanges are in progress."""
    x = Exchanges(rng)
    own = {}

    def begin(kind, new):
        e = x.prepare(kind, 99, False, True)
        e.new = new
        own[id(e)] = []
        e.task = x.loop.task(x.run(e))
        x.loop.settle()

    def received():
        """The frames that arrived, by exchange."""
        out = []
        for f in split_frames(x.conn.poll()):
            who = [e for e in x.ex if e.text == f and not e.sent] or [e for e in x.ex if e.text == f]
            if who:
                who[0].sent += 1
            out.append(who[0] if who else None)
        return out

    def value(e):
        n = x.identity(e)
        x.ids.add(n)
        own[id(e)].append(n)
        return e.reply(n) if callable(e.reply) else e.reply.format(n)
    for k in kinds:
        begin(k, False)
    first = received()[0]
    if first.kind != "cmd":
        x.conn.send("".join(value(first) for _ in range(part)))
        x.loop.settle()

    async def restart():
        await x.client.close()
        await x.client.start()
    t = x.loop.task(restart())
    x.loop.settle()
    x.conn = x.loop.connections[-1]
    for _ in range(2):
        x.conn.send("*#*1##")
        x.loop.settle()
        x.conn.poll() if _ == 0 else None
    t.result()
    data = x.conn.poll()
    # what is left of the greeting
    if data.startswith(b"*99*"):
        data = data[data.index(b"##") + 2:]
    poll, x.conn.poll = x.conn.poll, lambda: data
    waiting = received()
    x.conn.poll = poll
    for k in later:
        begin(k, True)
        waiting += received()
    most = len(waiting)
    for _ in range(400):
        if not waiting:
            if all(e.state() != "pending" for e in x.ex):
                break
            x.loop.advance(.5)
        else:
            e = waiting.pop(0)
            if wait:
                x.loop.advance(wait)
            if e is not None and e.kind != "cmd":
                x.conn.send(value(e) + (value(e) if e.kind != "one" else "") + "*#*1##")
            else:
                x.conn.send("*#*1##")
            x.loop.settle()
        waiting += received()
        most = max(most, len(waiting))
    r = {"k": "reopened", "most": most, "ex": [
        {"kind": e.kind, "text": e.text, "new": e.new, "st": e.state(), "sent": e.sent, "out": list(e.out),
         "own": own[id(e)][:1] if e.kind == "one" else own[id(e)] if e.kind != "cmd" else []} for e in x.ex]}
    x.loop.finish()
    ITEMS.pop(id(x.client), None)
    return r


def late(rng):
    """The reply to a command comes after its time limit, the next command takes it for its own."""
    x = Exchanges(rng)
    x.start("cmd")
    x.elapse(5100)
    x.conn.send("*#*1##")
    x.loop.settle()
    x.start("cmd")
    r = x.rec
    r["key"] = "late-reply"
    x.loop.finish()
    return r


def sequences(rec, scripts, session=None):
    rng = rec.rng
    for line in open(scripts):
        rec.emit(script(rng, json.loads(line)["ops"], session or rng.choice([SessionType.CommandSession, SessionType.OldCommandSession])))


def c15(rec, scripts):
    rng = rec.rng
    n = len(tables()["cmd"])
    for session in (SessionType.CommandSession, SessionType.OldCommandSession):
        for pick in range(n):
            few = pick >= len(COMMANDS + PLAIN) and not rec.thorough
            if few and session == SessionType.OldCommandSession:
                continue
            for fs in (["ack"], ["nack"], ["other"]):
                for wait in ((), (4900,), (2000, 2900), (100,)) if not few else ((), (4900,)):
                    x = Exchanges(rng, session)
                    x.start("cmd", pick=pick)
                    for w in wait:
                        x.elapse(w)
                    x.reply(fs, cut=rng.choice([[], [1], [3], [5]]))
                    rec.emit(x.finish())
            for waits in ([4900, 90], [4990], [5010]) if not few else ([5010],):
                x = Exchanges(rng, session)
                x.start("cmd", pick=pick)
                for w in waits:
                    x.elapse(w)
                rec.emit(x.finish())
    # every kind of reply that is not an ACK
    for o in OTHERS + ["echo"] * 5:
        x = Exchanges(rng)
        x.start("cmd")
        e = x.active()
        x.conn.send(o if o != "echo" else e.text)
        x.loop.settle()
        x.observe("reply", fs=[{"f": "other", "id": 0}])
        rec.emit(x.finish())
    # long runs of commands
    for _ in range(10 if not rec.thorough else 200):
        x = Exchanges(rng)
        for _ in range(40):
            x.start("cmd")
            if rng.random() < .3:
                x.elapse(rng.choice([100, 2450, 4900]))
            if rng.random() < .1:
                x.elapse(5100)
            else:
                x.reply([rng.choice(["ack", "ack", "nack", "other"])])
        rec.emit(x.finish())
    for pick in range(n):
        for when in ("before", "after", "reset"):
            rec.emit(drop(rng, "cmd", when, pick))
        rec.emit(again(rng, "cmd", pick, 3))
        rec.emit(again(rng, "cmd", pick, 12))
    rec.emit(late(rng))
    sequences(rec, scripts)


def c16(rec, scripts):
    rng = rec.rng
    kinds = {k: v for k, v in tables().items() if k != "cmd"}
    for kind, table in kinds.items():
        for pick in range(len(table)):
            for count in (0, 1, 2, 3, 20):
                for end in (["ack"], ["nack"], []):
                    for brk in (99, 1, 2) if kind != "one" else (99,):
                        x = Exchanges(rng)
                        x.start(kind, brk, pick=pick)
                        if rng.random() < .5:
                            x.reply(["right"] * count + end) if count or end else None
                        else:
                            for _ in range(count):
                                x.reply(["right"])
                                if rng.random() < .3:
                                    x.elapse(rng.choice([100, 3000, 4900]))
                            x.reply(end) if end else None
                        if not end:
                            x.elapse(4900)
                            x.elapse(200)
                        rec.emit(x.finish())
            # a response of the wrong kind anywhere
            for bad in ("wrong", "other"):
                for at in (0, 1, 2):
                    for brk in (99, 1, 2) if kind != "one" else (99,):
                        x = Exchanges(rng)
                        x.start(kind, brk, pick=pick)
                        x.reply(["right"] * at + [bad] + ["right"] * (2 - at) + [rng.choice(["ack", "ack", "nack"])])
                        rec.emit(x.finish())
            for when in ("before", "after", "reset"):
                rec.emit(drop(rng, kind, when, pick))
            for many in (2, 3, 4, 12):
                rec.emit(again(rng, kind, pick, many))
    # many responses, all at once or one by one
    for kind in kinds:
        for pick in range(len(kinds[kind])) if kind != "one" else (0, len(ONE)):
            for count in (60, 130, 300) if pick else (60, 64, 65, 128, 257, 520, 1030, 2500):
                x = Exchanges(rng)
                x.start(kind, 1 << 20, pick=pick)
                x.reply(["right"] * count + ["ack"])
                rec.emit(x.finish())
            for count in (70, 130, 300) if not pick else (70,):
                x = Exchanges(rng)
                x.start(kind, 1 << 20, pick=pick)
                for _ in range(count // 10):
                    x.reply(["right"] * 10)
                    if rng.random() < .3:
                        x.elapse(4900)
                x.reply(["ack"])
                rec.emit(x.finish())
    # silence after any number of responses, each of them late
    for kind in kinds:
        for count in (0, 1, 3):
            x = Exchanges(rng)
            x.start(kind)
            for _ in range(count):
                x.elapse(4800)
                x.reply(["right"])
            x.elapse(4980)
            x.elapse(100)
            rec.emit(x.finish())
    sequences(rec, scripts)


def c17(rec, scripts):
    rng = rec.rng
    kinds = ["cmd", "status", "dims", "one"]
    # every method while another exchange is in progress, with a third one waiting behind it
    for kind, table in tables().items():
        for pick in range(len(table)):
            for before, after in ([("cmd", "status")] if not rec.thorough else [(a, b) for a in kinds for b in kinds]):
                x = Exchanges(rng)
                x.start(before)
                x.start(kind, pick=pick)
                x.start(after)
                if rng.random() < .3:
                    x.elapse(rng.choice([100, 2450, 4900]))
                x.reply(["ack"] if before == "cmd" else ["right", "ack"])
                x.reply(rng.choice([["ack"], ["ack"], ["nack"]]) if kind == "cmd" else ["right", "right", "ack"])
                rec.emit(x.finish())
    for _ in range(30 if not rec.thorough else 600):
        x = Exchanges(rng)
        for _ in range(rng.randrange(2, 12)):
            kind = rng.choice(kinds)
            x.start(kind, inner=kind in ("status", "dims") and rng.random() < .3)
        for _ in range(60):
            e = x.active()
            if e is None:
                break
            if rng.random() < .15:
                x.elapse(rng.choice([100, 2450, 4900]))
            elif e.kind == "cmd":
                x.reply([rng.choice(["ack", "ack", "nack", "other"])])
            else:
                x.reply(rng.choice([["right"], ["right", "right", "ack"], ["ack"], ["right", "ack"], ["nack"] if not e.got else ["ack"]]))
        rec.emit(x.finish())
    # callers that give up after their frame was sent
    for kind in kinds:
        for got in (0, 1, 3) if kind != "cmd" else (0,):
            for wait in (0, 100, 4900):
                for others in ([], ["cmd"], ["status"], ["one", "dims", "cmd"]):
                    for _ in range(1 if not rec.thorough else 10):
                        rec.emit(abandon(rng, kind, got, wait, others))
    # the client is closed and started again meanwhile
    for _ in range(60 if not rec.thorough else 1200):
        rec.emit(reopened(rng, [rng.choice(kinds) for _ in range(rng.choice([1, 2, 2, 3, 6]))], rng.choice([0, 0, 1, 2]),
                          [rng.choice(kinds) for _ in range(rng.choice([1, 2, 3, 6]))], rng.choice([0, 0, .1, 2])))
    # a queue that moves slowly
    for n in (8, 16, 40):
        for kind in ("cmd", "one", None):
            x = Exchanges(rng)
            for _ in range(n):
                x.start(kind or rng.choice(kinds))
            for _ in range(4 * n):
                e = x.active()
                if e is None:
                    break
                x.elapse(4900)
                x.reply([rng.choice(["ack", "ack", "nack"])] if e.kind == "cmd" else rng.choice([["right"], ["right", "ack"]]))
            rec.emit(x.finish())
    # a crowd
    for n in (30, 70, 140):
        for kind in ("cmd", None):
            x = Exchanges(rng)
            for _ in range(n):
                x.start(kind or rng.choice(kinds))
            for _ in range(3 * n):
                e = x.active()
                if e is None:
                    break
                x.reply([rng.choice(["ack", "ack", "nack"])] if e.kind == "cmd" else ["right", "right", "ack"])
            rec.emit(x.finish())
    for line in open(scripts):
        rec.emit(script(rng, json.loads(line)["ops"]))
