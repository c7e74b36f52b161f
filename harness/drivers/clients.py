"""Several clients in one process (C27)."""
import asyncio
import json

from pyown.client import Client, SessionType
from pyown.exceptions import InvalidAuthentication
from pyown.items import Light
from pyown.messages import GenericMessage, NormalMessage
from pyown.tags import What, Where, Who

from ..core import codes
from ..vloop import VLoop, split_frames
from .exchange import DONORS, Exchanges, tables

CURRENT = []


async def hear(item, *args):
    if CURRENT:
        await CURRENT[0].heard(item, *args)


class Crowd:
    """n clients with exchanges, two clients with an event loop, two event clients read by hand, and troublemakers."""

    def __init__(self, rng, n):
        self.rng = rng
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        self.xs = [Exchanges(rng, rng.choice([SessionType.CommandSession, SessionType.OldCommandSession]), self.loop) for _ in range(n)]
        for i, x in enumerate(self.xs):
            # the same addresses on every client, other answers
            x.base = 1000 * (1 + i) if rng.random() < .5 else 1000
            x.nid = 1500 * i + 100
        self.pipes = []
        for _ in range(2):
            client, conn = self.connect(SessionType.EventSession)
            pipe = {"client": client, "conn": conn, "sent": [], "got": [], "rest": ""}
            self.pipes.append(pipe)
            pipe["task"] = self.loop.task(self.read(pipe))
        self.target = None
        self.events = []
        self.told = []
        CURRENT[:] = [self]
        # the items of each listener have a command client of their own, or the listener itself
        self.cmds = [x.client for x in rng.sample(self.xs, 2)]
        self.wires, self.tasks = [], []
        for i in range(2):
            listener, wire = self.connect(SessionType.EventSession)
            self.wires.append(wire)
            if rng.random() < .4:
                self.cmds[i] = listener
                self.tasks.append(self.loop.task(listener.loop()))
            else:
                self.tasks.append(self.loop.task(listener.loop(client=self.cmds[i])))
        self.loop.settle()
        self.noises = []

    def connect(self, session, answers=("*#*1##", "*#*1##")):
        client = Client("gateway", 20000, "12345", session, **({} if self.rng.random() < .5 else {"loop": self.loop}))
        t = self.loop.task(client.start())
        self.loop.settle()
        conn = self.loop.connections[-1]
        for a in answers:
            conn.send(a)
            self.loop.settle()
        if t.done() and t.exception() is not None and not isinstance(t.exception(), (InvalidAuthentication, TimeoutError)):
            t.result()
        conn.poll()
        return client, conn

    async def read(self, pipe):
        while True:
            pipe["got"].append(str(await pipe["client"].read_message(timeout=None)))

    async def heard(self, item, *args):
        mine = [i + 1 for i, c in enumerate(self.cmds) if c is item.client]
        self.told.append({"l": mine[0] if mine else 0, "w": codes(str(item.where))})
        if self.target is not None:
            x, e = self.target
            self.target = None
            e.task = asyncio.current_task()
            await x.run(e)
        elif self.rng.random() < .3:
            raise RuntimeError("callback")

    def others(self, x):
        for y in self.xs:
            if y is not x:
                y.observe("elapse", n=0)

    def event(self):
        i = self.rng.randrange(2)
        w = str(self.rng.randrange(1, 12))
        self.events.append({"l": i + 1, "w": codes(w)})
        self.wires[i].send("*1*%d*%s##" % (self.rng.randrange(2), w))
        self.loop.settle()

    def pipe(self, p, texts, half=False):
        """Sends frames, after what is missing of the last one; with half, the end of them comes later."""
        data = p["rest"] + "".join(texts)
        cut = len(data) - self.rng.randrange(1, len(texts[-1])) if half else len(data)
        p["rest"] = data[cut:]
        p["sent"] += texts
        p["conn"].send(data[:cut])

    def noise(self, kind):
        """Something that happens to another client."""
        rng, loop = self.rng, self.loop
        self.noises.append(kind)
        if kind == "event":
            self.event()
        elif kind == "frames":
            p = rng.choice(self.pipes)
            texts = ["*1*1*%d##" % rng.randrange(1, 99) for _ in range(rng.randrange(1, 5))] + rng.choice([[], ["*#*1##"], ["*#*0##"], ["*#1*11*1*150*9##"]])
            self.pipe(p, texts)
        elif kind == "halves":
            # parts of frames reach several clients in turn
            for _ in range(rng.randrange(2, 7)):
                self.pipe(rng.choice(self.pipes), ["*%d*%d*%d##" % (rng.choice([1, 2, 7]), rng.randrange(99), rng.randrange(1, 99))], rng.random() < .8)
                loop.settle()
        elif kind == "stuck":
            # a gateway that does not read what it gets
            client, conn = self.connect(rng.choice([SessionType.CommandSession, SessionType.OldCommandSession]))
            for _ in range(24):
                loop.task(self.quietly(client.send_message(GenericMessage(["1" * 60000]))))
            loop.settle()
        elif kind in ("drop", "garbage", "close", "silent"):
            client, conn = self.connect(rng.choice(list(SessionType)))
            if kind == "silent" and client.is_cmd_session():
                loop.task(self.quietly(Light(client, "11").turn_on()))
            loop.settle()
            if kind == "drop":
                conn.close()
            elif kind == "garbage":
                conn.send("xyz")
            elif kind == "close":
                loop.task(client.close())
        elif kind == "refused":
            self.connect(rng.choice(list(SessionType)), rng.choice([["*#*0##"], ["*#*1##", "*#*0##"], ["*#*1##", "*98*3##"], ["*1*1*1##"], []]))
        elif kind == "misuse":
            client = Client("gateway", 20000, "12345", SessionType.EventSession, loop=loop)
            loop.task(self.quietly(client.send_message(NormalMessage((Who.LIGHTING, What("1"), Where("11"))))))
            loop.task(self.quietly(client.read_message()))
            loop.task(self.quietly(client.close()))
        loop.settle()
        self.others(None)

    async def quietly(self, coro):
        try:
            await coro
        except Exception:
            pass

    def start(self, i, *args):
        x = self.xs[i]
        tables()
        # an item that belonged to another client that is not using it now
        free = [y.client for y in self.xs if y is not x and all(e.state() != "pending" for e in y.ex)]
        self.rng.shuffle(free)
        DONORS[:] = free if self.rng.random() < .4 else []
        if self.rng.random() < .25:
            # from a callback of the event client
            e = x.prepare(*args[:3], True)
            self.target = (x, e)
            self.event()
            x.observe("start", *args[:3])
        else:
            x.start(*args)
        DONORS.clear()
        self.others(x)

    def reply(self, i, names):
        self.xs[i].reply(names)
        self.others(self.xs[i])

    def cancel(self, i, k):
        x = self.xs[i]
        if k <= len(x.ex) and x.ex[k - 1].task is not None:
            x.cancel(k)
            self.others(x)

    def elapse(self, ms):
        ms += 3
        self.loop.advance(ms / 1000)
        for x in self.xs:
            x.observe("elapse", n=ms)

    def finish(self):
        for x in self.xs:
            for _ in range(60):
                if x.active() is None:
                    break
                x.reply(["right", "right", "ack"] if x.active().kind != "cmd" else ["ack"])
                self.others(x)
            x.start("cmd")
            self.others(x)
            x.reply(["ack"])
            self.others(x)
        self.event()
        for p in self.pipes:
            p["conn"].send(p["rest"])
        self.loop.settle()
        r = {"k": "clients", "noises": self.noises, "exch": [{"k": "exchange", "ops": x.rec["ops"], "obs": x.rec["obs"]} for x in self.xs],
             "pipes": [{"sent": [codes(t) for t in p["sent"]], "got": [codes(t) for t in p["got"]]} for p in self.pipes],
             "events": self.events, "told": self.told,
             "stray": [len(split_frames(c.poll())) for c in self.wires + [p["conn"] for p in self.pipes]],
             "running": not any(t.done() for t in self.tasks)}
        CURRENT.clear()
        self.loop.finish()
        return r


NOISES = ["event", "event", "frames", "frames", "drop", "garbage", "close", "silent", "refused", "misuse", "halves", "halves", "stuck"]


def random_history(rng, n, length):
    c = Crowd(rng, n)
    kinds = ["cmd", "cmd", "status", "dims", "one"]
    for _ in range(length):
        i = rng.randrange(n)
        p = rng.random()
        e = c.xs[i].active()
        if p < .35:
            kind = rng.choice(kinds)
            c.start(i, kind, rng.choice([99, 99, 1, 2]) if kind in ("status", "dims") else 99, False)
        elif p < .7 and e is not None:
            c.reply(i, [rng.choice(["ack", "ack", "nack", "other"])] if e.kind == "cmd" else
                    rng.choice([["right"], ["right", "right", "ack"], ["ack"], ["right", "ack"], ["nack"], ["wrong"], ["other"]]))
        elif p < .8:
            c.elapse(rng.choice([50, 100, 2450, 4900]))
        elif p < .95:
            c.noise(rng.choice(NOISES))
        else:
            c.cancel(i, rng.randrange(1, len(c.xs[i].ex) + 2))
    return c.finish()


def script(rng, ops, n):
    c = Crowd(rng, n)
    for o in ops:
        i, op = o["c"] - 1, o["op"]
        if op == "start":
            c.start(i, o["kind"], o["brk"], False)
        elif op == "reply":
            e = c.xs[i].active()
            right = "normal" if e is not None and e.kind == "status" else "dim"
            c.reply(i, [f["f"] if f["f"] in ("ack", "nack", "other") else "right" if f["f"] == right else "wrong" for f in o["fs"]])
        elif op == "elapse":
            c.elapse(o["n"])
        elif op == "cancel":
            c.cancel(i, o["n"])
        elif op == "noise":
            c.noise(NOISES[o["n"] % len(NOISES)])
    return c.finish()


def c27(rec, scripts):
    rng = rec.rng
    Light.on_status_change(hear)
    # one silent gateway, everybody else goes on
    for n in (2, 3, 5):
        for kind in ("cmd", "status", "dims", "one"):
            for noise in NOISES:
                c = Crowd(rng, n)
                c.start(0, kind, 99, False)
                c.noise(noise)
                for i in range(1, n):
                    c.start(i, rng.choice(["cmd", "status", "one"]), 99, False)
                c.elapse(4000)
                for i in range(1, n):
                    e = c.xs[i].active()
                    c.reply(i, ["ack"] if e is None or e.kind == "cmd" else ["right", "ack"])
                c.elapse(1100)
                rec.emit(c.finish())
    for _ in range(150 if not rec.thorough else 4000):
        rec.emit(random_history(rng, rng.choice([2, 2, 3, 4]), rng.choice([15, 30, 60])))
    for line in open(scripts):
        rec.emit(script(rng, json.loads(line)["ops"], 3))
