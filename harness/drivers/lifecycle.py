"""The life of two clients: every operation at every point (C12, C25)."""
import asyncio
import json
import socket

from pyown.client import Client, SessionType
from pyown.exceptions import InvalidAuthentication, InvalidSession
from pyown.items import EnergyManagement, Gateway, Light
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.lighting import Dimmer
from pyown.messages import parse_message

from ..core import codes
from ..vloop import VLoop, split_frames
from .exchange import methods

TYPES = {"cmd": SessionType.CommandSession, "old": SessionType.OldCommandSession, "event": SessionType.EventSession}


def outcome(task):
    if not task.done():
        return "pending"
    if task.cancelled():
        return "cancelled"
    e = task.exception()
    if e is None:
        return "ok"
    for cls, name in ((InvalidSession, "session"), (InvalidAuthentication, "auth"), (TimeoutError, "timeout")):
        if isinstance(e, cls):
            return name
    return "other " + type(e).__name__


async def collect(it):
    return [x async for x in it]


COMMANDS = [
    lambda c: Light(c, "11").turn_on(), lambda c: Light(c, "12").turn_off(), lambda c: Dimmer(c, "13").turn_on(3),
    lambda c: Dimmer(c, "13").set_hsv(1, 2, 3), lambda c: Automation(c, "21").up(), lambda c: Automation(c, "21").stop(),
    lambda c: Camera(c, "4001").receive_video(), lambda c: Camera(c, "4001").zoom_in(),
    lambda c: Camera(c, "4001").display_dial(1, 2),
    lambda c: EnergyManagement(c, "51").start_sending_instant_power(5),
    lambda c: EnergyManagement(c, "71#0").enable_actuator(), lambda c: Light(c, "11").temporization_command(1, 2, 3),
    lambda c: Light(c, "11").send_normal_message("1"), lambda c: Light(c, "11").blink_1_0_sec(),
] + [lambda c, f=f: f(c, "31") for f in methods()]
REQUESTS = [
    (lambda c: collect(Light(c, "11").get_status()), "*1*1*11##"),
    (lambda c: collect(Dimmer(c, "11").get_status()), "*1*5*11##"),
    (lambda c: collect(Automation(c, "21").get_status()), "*2*1*21##"),
    (lambda c: Gateway(c).get_model(), "*#13**15*4##"),
    (lambda c: Gateway(c).get_uptime(), "*#13**19*1*2*3*4##"),
    (lambda c: EnergyManagement(c, "51").get_active_power(), "*#18*51*113*100##"),
    (lambda c: collect(Light(c, "11").request_working_time_lamp()), "*#1*11*8*100##"),
    (lambda c: collect(Light(c, "11").send_status_request()), "*1*1*11##"),
    (lambda c: collect(Light(c, "11").send_dimension_request("1")), "*#1*11*1*150*5##"),
]
FRAMES = ["*1*1*11##", "*#1*11##", "*#13**15##", "*2*0*#3##", "*#13**#0*12*30*00*001##", "*99*9##", "*#*1##"]
EVENTS = ["*1*1*11##", "*1*0*12##", "*2*1*21##", "*#13**0*12*30*00*001##", "*#18*51*113*12##", "*#*1##", "*16*3##"]


class Life:
    def __init__(self, rng, types):
        self.rng = rng
        self.refuse = False
        self.loop = VLoop(gateway=self.gateway)
        asyncio.set_event_loop(self.loop)
        self.hosts = [("10.0.0.%d" % (i + 1), 20000 + i) for i in range(len(types))]
        self.clients = [self.make(h, p, t) for (h, p), t in zip(self.hosts, types)]
        self.conns = [None] * len(types)
        self.side = []
        self.rec = {"k": "life", "types": types, "ops": [], "late": []}

    def make(self, host, port, t):
        """A client, constructed in one of the documented ways."""
        kw = {} if t == "cmd" and self.rng.random() < .5 else {"session_type": TYPES[t]}
        if self.rng.random() < .3:
            return Client(host=host, port=port, password="12345", **kw)
        if self.rng.random() < .5:
            return Client(host, port, "12345", loop=self.loop, **kw)
        # the loop that is given counts, not the one that happens to be current
        other = asyncio.new_event_loop()
        asyncio.set_event_loop(other)
        try:
            return Client(host, port, "12345", loop=self.loop, **kw)
        finally:
            asyncio.set_event_loop(self.loop)
            other.close()

    def gateway(self, conn):
        if self.refuse:
            raise ConnectionRefusedError()
        # a small socket buffer, so that a burst is still in the client's hands when it closes
        conn.mine.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1)

    def shake(self, c, upto=9, nack=False, closing=False):
        """Plays the gateway of a handshake; returns the task of start()."""
        client = self.clients[c]
        before = len(self.loop.connections)

        async def reopen():
            await client.close()
            await client.start()
        t = self.loop.task(reopen() if closing else client.start())
        self.loop.settle()
        new = self.loop.connections[before:]
        if not new:
            return t
        conn = self.conns[c] = new[0]
        frames = ["*#*1##", "*#*1##"]
        if self.rng.random() < .3:
            frames = ["*#*1##", "*#603356072##", "*#*1##"]
        if nack:
            frames[-1] = "*#*0##"
        for f in frames[:upto]:
            conn.send(f)
            self.loop.settle()
        return t

    def drain(self, conn):
        data = b""
        while True:
            d = conn.poll()
            self.loop.settle()
            if not d:
                return data
            data += d

    def do(self, c, op):
        loop, client, rng = self.loop, self.clients[c], self.rng
        text, got, waited, ended = "", "", False, True
        before = len(loop.connections)
        if op in ("start", "nack"):
            res = outcome(self.shake(c, nack=op == "nack"))
        elif op == "reopen":
            old = self.conns[c]
            res = outcome(self.shake(c, closing=True))
            if old is not None:
                self.drain(old)
                ended = old.eof or not old.open
        elif op == "refuse":
            self.refuse = True
            res = outcome(self.shake(c))
            self.refuse = False
        elif op == "stall":
            t = self.shake(c, upto=rng.randrange(0, 2))
            res = outcome(t)
            self.side.append(("start", t))
        elif op == "close":
            t = loop.task(client.close())
            loop.settle()
            res = outcome(t)
        elif op == "readclose":
            r = loop.task(client.read_message())
            loop.settle()
            self.side.append(("read", r))
            t = loop.task(client.close())
            loop.settle()
            res = outcome(t)
        elif op == "burst":
            texts = [rng.choice(FRAMES) for _ in range(rng.choice([1, 2, 3, 20, 100]))]
            text = "".join(texts)

            async def burst():
                for x in texts:
                    await client.send_message(parse_message(x))
                await client.close()
            t = loop.task(burst())
            loop.settle()
            res = outcome(t)
        elif op in ("send", "force"):
            text = rng.choice(FRAMES)
            t = loop.task(client.send_message(parse_message(text), force=op == "force"))
            loop.settle()
            res = outcome(t)
        elif op == "read":
            t = loop.task(client.read_message())
            loop.settle()
            waited = not t.done()
            if waited:
                loop.advance(5.01)
            res = outcome(t)
            if res == "ok":
                res, got = "message", str(t.result())
        elif op in ("cmd", "request"):
            if op == "cmd":
                t, answer = loop.task(rng.choice(COMMANDS)(client)), ""
            else:
                f, answer = rng.choice(REQUESTS)
                t = loop.task(f(client))
            loop.settle()
            if not t.done() and self.conns[c] is not None:
                self.conns[c].send(answer + "*#*1##")
                loop.settle()
            res = outcome(t)
        elif op == "loop":
            t = loop.task(client.loop())
            loop.settle()
            res = outcome(t)
        elif op == "recv":
            text = rng.choice(EVENTS)
            self.conns[c].send(text)
            loop.settle()
            res = "ok"
        elif op == "drop":
            self.conns[c].poll()
            self.conns[c].close()
            loop.settle()
            res = "ok"
        new = loop.connections[before:]
        wires = []
        for i, conn in enumerate(self.conns):
            wires.append([codes(f) for f in split_frames(self.drain(conn))] if conn is not None else [])
        self.rec["ops"].append({
            "c": c + 1, "op": op, "text": codes(text), "got": codes(got), "res": res, "waited": waited, "ended": ended, "wires": wires,
            "eof": [conn is None or conn.eof or not conn.open for conn in self.conns],
            "opened": len(new),
            "to": all((n.host, n.port) == self.hosts[c] for n in new)})

    def finish(self):
        self.loop.advance(30)
        for kind, t in self.side:
            self.rec["late"].append({"kind": kind, "res": outcome(t)})
        for i, conn in enumerate(self.conns):
            self.rec.setdefault("rest", []).append([codes(f) for f in split_frames(conn.poll())] if conn else [])
        self.loop.finish()
        return self.rec


def play(rng, types, ops):
    life = Life(rng, types)
    for c, op in ops:
        life.do(c, op)
    return life.finish()


def systematic():
    """Every operation in every state reached by every short path."""
    paths = [[], ["start"], ["start", "close"], ["start", "close", "start"], ["nack", "close"], ["refuse"], ["stall", "close"],
             ["start", "drop", "close"], ["start", "drop", "close", "start"], ["stall", "close", "start"], ["close"],
             ["close", "close", "start"], ["start", "recv", "close", "start"], ["refuse", "refuse", "start"],
             ["start", "recv", "recv", "drop", "close", "start"], ["start", "readclose"], ["start", "readclose", "start", "recv"],
             ["nack", "close", "start"], ["refuse", "close", "close"], ["start", "close", "refuse"], ["start", "close", "nack", "close"],
             ["start", "send", "close"], ["start", "force", "close", "start"], ["start", "reopen"], ["start", "recv", "reopen"], ["start", "reopen", "reopen", "recv"],
             ["reopen"], ["stall", "reopen"], ["nack", "reopen"], ["start", "drop", "reopen"], ["start", "loop", "reopen"], ["start", "reopen", "close"],
             ["start", "close", "reopen"], ["refuse", "reopen"]]
    idle = ("close", "refuse", "readclose")
    for t in TYPES:
        for p in paths:
            if "loop" in p and t != "event":
                continue
            up = bool(p) and p[-1] not in idle
            inbox = p[-1:] == ["recv"]
            for op in ("send", "force", "read", "cmd", "request", "loop", "close"):
                if op in ("cmd", "request") and inbox and t != "event":
                    continue
                # the same attempt twice, then closing and using the client again
                yield t, p + [op] + ([op] if op != "loop" or not (up and t == "event") else [])
                yield t, p + [op, "close", "close", "start", "force", "recv", "close", op]
            if up and t != "event":
                yield t, p + ["burst", "start", "burst", "close"]


def both(rec, scripts):
    rng = rec.rng
    for t, ops in systematic():
        n = 1 if not rec.thorough else 6
        for _ in range(n):
            rec.emit(play(rng, [t], [(0, o) for o in ops]))
    for line in open(scripts):
        s = json.loads(line)
        rec.emit(play(rng, s["types"], [(o["c"] - 1, o["op"]) for o in s["ops"]]))


c12 = both
c25 = both
