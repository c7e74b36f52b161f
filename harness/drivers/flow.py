"""Sends under flow control (C14): a transport played by the driver, and real sockets that fill up."""
import asyncio
import json
import socket

from pyown.client import Client, SessionType
from pyown.messages import GenericMessage, parse_message
from pyown.protocol import OWNProtocol

from ..core import codes
from ..vloop import VLoop, split_frames


class FakeTransport(asyncio.Transport):
    def __init__(self):
        super().__init__()
        self.data = b""
        self.protocol = None
        self.paused = self.arm = self.closing = self.lost = False

    def write(self, data):
        self.data += bytes(data)
        if self.arm:
            self.arm = False
            if not self.paused:
                self.pause()

    def pause(self):
        self.paused = True
        self.protocol.pause_writing()

    def resume(self):
        self.paused = False
        self.protocol.resume_writing()

    def take(self):
        d, self.data = self.data, b""
        return d

    def is_closing(self):
        return self.closing

    def close(self):
        self.closing = True

    abort = close

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return (16384, 65536)

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_extra_info(self, name, default=None):
        return default


def frame(rng, n):
    if rng.random() < .1:
        # longer than what a transport takes at once
        return "*#18*%d*52*%s##" % (n, "*".join(["1234567"] * rng.choice([100, 600, 1500, 10000])))
    return rng.choice(["*1*1*{}##", "*#1*{}##", "*#13**15*{}##", "*#13**#0*12*{}##", "*99*{}##"]).format(n)


class Flow:
    def __init__(self, rng):
        self.rng = rng
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        self.tr = FakeTransport()
        box = []

        async def make():
            box.append(OWNProtocol(self.loop.create_future(), self.loop.create_future()))
        self.loop.run_until_complete(make())
        self.p = self.tr.protocol = box[0]
        self.p.connection_made(self.tr)
        self.loop.settle()
        self.tasks, self.texts = [], []
        self.rec = {"k": "flow", "ops": [], "obs": []}

    def do(self, op, n):
        tr, loop = self.tr, self.loop
        if op == "send":
            text = frame(self.rng, 100 + len(self.texts))
            self.texts.append(text)
            self.tasks.append(loop.task(self.p.send_message(parse_message(text))))
        elif op == "pause":
            if tr.paused or tr.lost:
                return
            tr.pause()
        elif op == "resume":
            if not tr.paused:
                return
            tr.resume()
        elif op == "arm":
            tr.arm = not tr.lost
        elif op == "cancel":
            if n > len(self.tasks):
                return
            self.tasks[n - 1].cancel()
        elif op == "lost":
            tr.lost, tr.arm, tr.paused = True, False, False
            self.p.connection_lost(ConnectionResetError() if n else None)
        if op == "elapse":
            loop.advance(n / 1000)
        else:
            loop.settle()
        frames = split_frames(tr.take())
        self.rec["ops"].append({"op": op, "n": n})
        self.rec["obs"].append({
            "wrote": [self.texts.index(f) + 1 if f in self.texts else 0 for f in frames],
            "done": ["pending" if not t.done() else "cancelled" if t.cancelled() else
                     "done" if t.exception() is None else "failed" for t in self.tasks]})

    def finish(self):
        self.loop.finish()
        return self.rec


def play(rng, ops, end=True):
    f = Flow(rng)
    for op, n in ops:
        f.do(op, n)
    if end and not any(o == "lost" for o, _ in ops):
        f.tr.arm = False
        if f.tr.paused:
            f.do("elapse", 5000)
            f.do("disarm", 0)
            f.do("resume", 0)
        else:
            f.do("disarm", 0)
        f.do("elapse", 1200)
        f.do("send", 0)
    elif end:
        f.do("elapse", 1200)
    return f.finish()


def end_to_end(rng, sends, size, together, chunk):
    """Real sockets with small buffers, a gateway that reads slowly."""
    def small(conn):
        conn.mine.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
        conn.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    loop = VLoop(gateway=small)
    asyncio.set_event_loop(loop)
    client = Client("gateway", 20000, "12345", SessionType.CommandSession, loop=loop)
    t = loop.task(client.start())
    loop.settle()
    conn = loop.connections[0]
    for _ in range(2):
        conn.send("*#*1##")
        loop.advance(.5)
    t.result()
    conn.poll()
    texts = ["*16*%d*%s##" % (i + 1, "7" * rng.randrange(1, size)) for i in range(sends)]

    async def one(x):
        await client.send_message(GenericMessage(x[1:-2].split("*")))

    async def all_of_them():
        for x in texts:
            await one(x)
    tasks = [loop.task(one(x)) for x in texts] if together else [loop.task(all_of_them())]
    loop.settle()
    # nobody reads: time passes, and what cannot be written must wait
    loop.advance(2)
    data = b""
    idle = 0
    while idle < 30:
        try:
            d = conn.sock.recv(chunk)
        except BlockingIOError:
            d = b""
        if d:
            idle = 0
            data += d
            loop.settle()
        else:
            idle += 1
            loop.advance(.1)
    index = {x: i + 1 for i, x in enumerate(texts)}
    r = {"k": "e2e", "sends": sends, "ordered": not together, "got": [index.get(f, 0) for f in split_frames(data)],
         "done": all(t.done() and t.exception() is None for t in tasks)}
    loop.finish()
    return r


def c14(rec, scripts):
    rng = rec.rng
    S, P, R, A = ("send", 0), ("pause", 0), ("resume", 0), ("arm", 0)

    def E(n):
        return ("elapse", n)

    def L(n):
        return ("lost", n)

    def C(n):
        return ("cancel", n)
    fixed = [
        [S], [S, S, S], [P, S, E(5000), R, E(1100)], [P, S, S, S, E(110), R, E(1100)], [P, R, S], [P, R, P, R, S, P, S, R, E(1100)],
        [P, S, E(60000), S, E(3600000), R, E(1100)], [P, S, L(0), E(1100)], [P, S, S, S, L(1), E(1100)], [P, S, E(250), L(1), E(1100)],
        [P, S, E(250), L(0), E(1100)], [L(0), E(1100)], [L(1), E(1100)], [S, L(1), E(1100)], [P, L(0), E(1100)], [P, R, L(0), E(1100)],
        [P, S, R, P, E(5000), R, P, E(110), R, E(1100)], [P, S, S, A, R, E(1100), R, E(1100)], [P, S, S, S, A, R, E(1100), A, R, E(1100), R, E(1100)],
        [A, S, S, S, E(500), R, E(1100)], [P, S, C(1), R, E(1100)], [P, S, S, C(1), E(300), R, E(1100)], [P, S, S, C(2), E(300), R, E(1100), S],
        [P, S, R, S, E(1100)], [P, S, E(50), R, S, S, E(1100), P, S, E(20), R, E(1100)], [A, S, S, L(0), E(1100)], [A, S, S, L(1), E(1100)],
    ]
    for ops in fixed:
        rec.emit(play(rng, ops))
    for n in (1, 2, 5, 30):
        rec.emit(play(rng, [P] + [S] * n + [E(700), R, E(1100)]))
        rec.emit(play(rng, ([P, S, R] * n) + [E(1100)]))
        rec.emit(play(rng, ([P, S, E(30), R, E(40)] * n) + [E(1100)]))
        rec.emit(play(rng, [P] + [S] * n + [L(1), E(1100)]))
        rec.emit(play(rng, [P] + [S] * n + [A, R, E(1100)] * (n + 1)))
    for n in (70, 150, 300):
        rec.emit(play(rng, [P] + [S] * n + [E(700), R, E(1100)]))
        rec.emit(play(rng, [P] + [S] * n + [L(0), E(1100)]))
        rec.emit(play(rng, [A] + [S] * n + [E(100), R, E(1100)]))
    for line in open(scripts):
        rec.emit(play(rng, [(o["op"], (o["n"] if o["op"] != "lost" else rng.randrange(2))) for o in json.loads(line)["ops"]]))
    for i in range(24 if not rec.thorough else 300):
        rec.emit(end_to_end(rng, rng.choice([5, 60, 300]), rng.choice([5, 400, 2000, 20000]) if i % 8 != 7 else 70000, i % 2 == 0, rng.choice([1000, 5000, 60000])))
