"""read_message against arrivals, timeouts and cancellations (C13)."""
import asyncio
import json

from pyown.client import Client, SessionType

from ..core import codes
from ..vloop import VLoop

ABSENT = object()


def template(rng, n):
    return rng.choice(["*1*1*{}##", "*#13**15*{}##", "*2*0*{}##", "*#1*{}##", "*#4*{}*0##", "*#{}##", "*16*{}##", "*#1*11*#2*{}##"]).format(n)


class Readers:
    def __init__(self, rng, session):
        self.rng = rng
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        self.client = Client("gateway", 20000, "12345", session, loop=self.loop)
        t = self.loop.task(self.client.start())
        self.loop.settle()
        self.conn = self.loop.connections[0]
        for _ in range(2):
            self.conn.send("*#*1##")
            self.loop.settle()
        t.result()
        self.tasks, self.deadlines = [], []
        self.t0 = self.loop.time()
        self.ms = 0
        self.count = 100
        self.rec = {"k": "reads", "ops": [], "obs": []}

    def texts(self, n):
        out = []
        for _ in range(n):
            self.count += 1
            out.append(template(self.rng, self.count))
        return out

    def to(self, ms):
        """Virtual time to exactly ms after the start."""
        self.loop.advance(self.t0 + ms / 1000 - self.loop.time())
        self.ms = ms

    def observe(self, op, n, texts):
        self.rec["ops"].append({"op": op, "n": n, "ms": [codes(t) for t in texts]})
        out = []
        for t in self.tasks:
            if not t.done():
                out.append({"s": "pending", "m": []})
            elif t.cancelled():
                out.append({"s": "cancelled", "m": []})
            elif t.exception() is None:
                out.append({"s": "ok", "m": codes(t.result())})
            elif isinstance(t.exception(), TimeoutError):
                out.append({"s": "timeout", "m": []})
            else:
                out.append({"s": "other " + type(t.exception()).__name__, "m": []})
        self.rec["obs"].append(out)

    def arrive(self, n, cut=None):
        texts = self.texts(n)
        data = "".join(texts)
        if cut:
            self.conn.send(data[:cut])
            self.loop.settle()
            self.conn.send(data[cut:])
        else:
            self.conn.send(data)
        self.loop.settle()
        self.observe("arrive", 0, texts)

    def available(self):
        return self.count - 100 > sum(t.done() and not t.cancelled() and t.exception() is None for t in self.tasks)

    def read(self, limit):
        """limit: ms, -1: None, 5000: sometimes the default."""
        if limit == 0 and self.available():
            # whether there is time for a message that is already there is not specified
            limit = 1000
        if limit == 5000 and self.rng.random() < .5:
            coro = self.client.read_message()
        elif limit == 5000 and self.rng.random() < .3:
            coro = self.client.read_message(5)
        else:
            coro = self.client.read_message(timeout=None if limit == -1 else limit // 1000)
        self.tasks.append(self.loop.task(coro))
        self.deadlines.append(None if limit == -1 else self.ms + limit)
        self.loop.settle()
        self.observe("read", limit, [])

    def readmany(self, n):
        for _ in range(n):
            self.tasks.append(self.loop.task(self.client.read_message(timeout=1 if self.available() else 0)))
            self.deadlines.append(None)
            self.loop.settle()
        self.observe("readmany", n, [])

    def elapse(self, ms):
        while any(d == self.ms + ms for d in self.deadlines):
            ms += 3
        self.to(self.ms + ms)
        self.observe("elapse", ms, [])

    def cancel(self, i):
        if i > len(self.tasks):
            return
        self.tasks[i - 1].cancel()
        self.loop.settle()
        self.observe("cancel", i, [])

    def hop(self, task):
        def go(k):
            if k:
                self.loop.call_soon(go, k - 1)
            else:
                task.cancel()
        return go

    def readcancel(self, limit):
        """A read that is cancelled a few iterations of the loop later."""
        t = self.loop.task(self.client.read_message(timeout=None if limit == -1 else limit // 1000))
        self.tasks.append(t)
        self.deadlines.append(None)
        self.loop.call_soon(self.hop(t), self.rng.choice([0, 0, 1, 2, 3]))
        self.loop.settle()
        self.observe("readcancel", limit, [])

    def racecancel(self, i):
        if i > len(self.tasks):
            return
        texts = self.texts(1)
        self.conn.send(texts[0])
        hop = self.hop(self.tasks[i - 1])
        if self.rng.random() < .8:
            # in the same iteration of the loop, after the data, or a few iterations later
            self.loop.call_later(0, hop, self.rng.choice([0, 0, 1, 2, 3, 4]))
        else:
            self.loop.call_soon(self.tasks[i - 1].cancel)
        self.loop.settle()
        self.observe("racecancel", i, texts)

    def racetimeout(self):
        due = [d for d, t in zip(self.deadlines, self.tasks) if d is not None and not t.done()]
        if not due:
            return self.arrive(1)
        step = min(due) - self.ms
        texts = self.texts(1)
        # the time and the data come together: one iteration of the loop sees both
        self.loop._now = self.t0 + min(due) / 1000 + 1e-6
        self.ms = min(due)
        self.conn.send(texts[0])
        self.loop.settle()
        self.observe("racetimeout", step, texts)

    def do(self, o):
        op = o["op"]
        if op == "arrive":
            self.arrive(len(o["ms"]) if isinstance(o["ms"], list) else o["ms"], cut=self.rng.choice([None, None, 3, 7]))
        elif op == "read":
            self.read(o["n"])
        elif op == "readmany":
            self.readmany(o["n"])
        elif op == "elapse":
            self.elapse(o["n"])
        elif op == "cancel":
            self.cancel(o["n"])
        elif op == "racecancel":
            self.racecancel(o["n"])
        elif op == "readcancel":
            self.readcancel(o["n"])
        elif op == "racetimeout":
            self.racetimeout()

    def finish(self):
        # whatever is left can still be read
        for _ in range(3):
            self.read(0)
        self.elapse(6000)
        self.arrive(1)
        self.read(5000)
        self.loop.finish()
        return self.rec


def play(rng, ops):
    r = Readers(rng, rng.choice([SessionType.CommandSession, SessionType.EventSession, SessionType.OldCommandSession]))
    for o in ops:
        r.do(o)
    return r.finish()


def c13(rec, scripts):
    rng = rec.rng

    def O(op, n=0, ms=1):
        return {"op": op, "n": n, "ms": ms}
    # the limits, to the millisecond
    for limit in (0, 1000, 2000, 3000, 5000, 7000, 60000, 61000, 300000, 601000, 3601000, 90000000, -1):
        for before in (0, 1, 499, 999, 1999, 2999, 4999, 6999, 59999):
            rec.emit(play(rng, [O("read", limit), O("elapse", before), O("elapse", 2), O("arrive"), O("read", 5000)]))
            rec.emit(play(rng, [O("read", limit), O("elapse", before), O("arrive"), O("elapse", 7000), O("read", 1000), O("arrive", ms=3)]))
        if limit > 10000:
            rec.emit(play(rng, [O("read", limit), O("elapse", limit - 1), O("elapse", 2), O("arrive"), O("read", 5000)]))
            rec.emit(play(rng, [O("read", limit), O("elapse", limit - 1), O("arrive"), O("read", limit)]))
        rec.emit(play(rng, [O("read", limit), O("racetimeout"), O("read", 5000), O("read", -1), O("arrive", ms=2)]))
        for _ in range(4):
            rec.emit(play(rng, [O("read", limit), O("racecancel", 1), O("read", 5000), O("read", -1), O("arrive", ms=2)]))
        rec.emit(play(rng, [O("read", limit), O("read", limit), O("racecancel", 1), O("racecancel", 2), O("read", 5000), O("arrive", ms=2)]))
        rec.emit(play(rng, [O("read", limit), O("elapse", 100000), O("elapse", 3000000), O("arrive"), O("read", 1000)]))
    # many messages, read later
    for n in (30, 150, 300, 1100):
        rec.emit(play(rng, [O("arrive", ms=n), O("arrive", ms=5), O("readmany", n + 7), O("arrive", ms=2), O("readmany", 3)]))
        rec.emit(play(rng, [O("arrive", ms=n)] + [O("readcancel", rng.choice([-1, 5000])) for _ in range(12)] + [O("readmany", n + 2), O("arrive", ms=2), O("readmany", 3)]))
    rec.emit(play(rng, [O("read", -1)] * 40 + [O("arrive", ms=30), O("cancel", 35), O("arrive", ms=12)] + [O("read", 5000)] * 3))
    for line in open(scripts):
        rec.emit(play(rng, json.loads(line)["ops"]))
