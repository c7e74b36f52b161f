"""Connections that are lost at every byte of what the gateway says (C29)."""
import asyncio

from pyown.client import Client, SessionType

from ..core import codes
from ..vloop import VLoop, split_frames
from .exchange import ITEMS, OTHERS, Exchanges
from .lifecycle import outcome
from .session import Gateway, rand_nonce

HOW = ["close", "reset", "garbage", "garbage at once", "half"]


def lose(loop, conn, how, data, cuts):
    """Sends data in pieces, then the connection is lost."""
    data = data.encode() if isinstance(data, str) else data
    if how != "reset":
        conn.poll()
    if how == "garbage at once":
        data += b"x"
    last = 0
    for c in sorted(cuts) + [len(data)]:
        if c > last:
            conn.send(data[last:c])
            last = c
            if c < len(data):
                loop.settle()
    if how == "garbage":
        loop.settle()
        conn.send("x")
    elif how == "half":
        # the gateway stops sending, and goes away a little later
        loop.settle()
        import socket
        try:
            conn.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        loop.settle()
        loop.advance(.5)
    if how not in ("garbage", "garbage at once"):
        conn.close()
    loop.settle()


def again(rng, loop, client, x=None):
    """The next session of the client: one request, with an answer of its own."""
    n = len(loop.connections)

    async def restart():
        await client.close()
        await client.start()
    t = loop.task(restart())
    loop.settle()
    if len(loop.connections) == n:
        return {"start": outcome(t), "st": "", "sent": 0, "out": [], "own": []}
    conn = loop.connections[-1]
    for _ in range(2):
        conn.send("*#*1##")
        loop.settle()
    data = conn.poll()
    start = outcome(t)
    if x is None:
        x = Exchanges.__new__(Exchanges)
        x.rng, x.loop, x.client, x.ex, x.ids, x.nid, x.base = rng, loop, client, [], set(), 100, rng.randrange(1, 60) * 1000
        ITEMS.pop(id(client), None)
    kind = rng.choice(["status", "dims", "one", "cmd"])
    e = x.prepare(kind, 99, False, True)
    e.task = loop.task(x.run(e))
    loop.settle()
    sent = sum(f == e.text for f in split_frames(conn.poll()))
    own, texts = [], []
    for _ in range(0 if kind == "cmd" else 1 if kind == "one" else rng.randrange(4)):
        v = x.identity(e)
        x.ids.add(v)
        own.append(v)
        texts.append(e.reply(v) if callable(e.reply) else e.reply.format(v))
    conn.send("".join(texts) + "*#*1##")
    loop.settle()
    loop.advance(5.2)
    r = {"start": start, "st": e.state(), "sent": sent, "out": list(e.out), "own": own}
    ITEMS.pop(id(client), None)
    return r


def answer(rng, x, e):
    """The frames of an answer and their texts."""
    end = rng.choice(["ack", "ack", "ack", "nack"])
    if e.kind == "cmd":
        f = rng.choice(["ack", "ack", "nack", "other"])
        t = {"ack": "*#*1##", "nack": "*#*0##"}.get(f) or rng.choice(OTHERS)
        return [(f, 0, t)]
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if end == "ack" else 0):
        n = x.identity(e)
        x.ids.add(n)
        out.append(("val", n, e.reply(n) if callable(e.reply) else e.reply.format(n)))
    return out + [(end, 0, "*#*1##" if end == "ack" else "*#*0##")]


def cut(rng, kind, where, how, others, pick=None):
    """where: a function of the length of the answer."""
    x = Exchanges(rng, rng.choice([SessionType.CommandSession, SessionType.OldCommandSession]))
    e = x.prepare(kind, 99, False, True, pick)
    e.task = x.loop.task(x.run(e))
    x.loop.settle()
    rest = []
    for k in others:
        o = x.prepare(k, 99, False, True)
        o.task = x.loop.task(x.run(o))
        rest.append(o)
        x.loop.settle()
    frames = answer(rng, x, e)
    data = "".join(t for _, _, t in frames)
    at = min(where(len(data)), len(data))
    lose(x.loop, x.conn, how, data[:at], [rng.randrange(at + 1) for _ in range(rng.choice([0, 0, 1, 3]))])
    for _ in range(len(others) + 2):
        x.loop.advance(5.2)
    r = {"k": "cut", "kind": kind, "text": e.text, "how": how, "frames": [{"f": f, "id": n, "n": len(t)} for f, n, t in frames], "cut": at,
         "st": e.state(), "out": list(e.out), "others": [{"st": o.state(), "out": list(o.out)} for o in rest]}
    r["after"] = again(rng, x.loop, x.client, x)
    x.loop.finish()
    ITEMS.pop(id(x.client), None)
    return r, len(data)


def reads(rng, where, how, session, waiting):
    x = Exchanges(rng, session)
    texts = [rng.choice(["*1*1*{}##", "*#13**15*{}##", "*2*0*{}##", "*#1*{}##", "*16*{}##"]).format(100 + i) for i in range(rng.randrange(1, 5))]
    data = "".join(texts)
    at = min(where(len(data)), len(data))
    tasks = [x.loop.task(x.client.read_message()) for _ in range(waiting)]
    x.loop.settle()
    lose(x.loop, x.conn, how, data[:at], [rng.randrange(at + 1) for _ in range(rng.choice([0, 1, 2]))])
    while len(tasks) < len(texts) + 2:
        tasks.append(x.loop.task(x.client.read_message()))
        x.loop.settle()
    x.loop.advance(5.2)
    out = []
    for t in tasks:
        ok = t.done() and not t.cancelled() and t.exception() is None
        out.append({"st": outcome(t), "m": codes(t.result()) if ok else []})
    r = {"k": "reads", "how": how, "frames": [{"f": "val", "id": i, "n": len(t), "m": codes(t)} for i, t in enumerate(texts)], "cut": at, "reads": out}
    # an event session sends no requests
    r["after"] = again(rng, x.loop, x.client, x) if session != SessionType.EventSession else {"start": "ok", "st": "ok", "sent": 1, "out": [], "own": []}
    x.loop.finish()
    return r, len(data)


def shake(rng, plan, where, how):
    loop = VLoop()
    asyncio.set_event_loop(loop)
    password = rng.choice(["12345", "987654321"])
    client = Client("gateway", 20000, password, rng.choice([SessionType.CommandSession, SessionType.OldCommandSession]), loop=loop)
    gw = Gateway(rng, password, rand_nonce(rng), "%040x" % rng.getrandbits(160), 0)
    task = loop.task(client.start())
    loop.settle()
    conn = loop.connections[0]
    sizes = {"ack": 6, "sha1": 7, "sha2": 7, "nonce": len(gw.nonce) + 4, "key": 84, "good": 4 + (80 if "sha1" in plan else 128)}
    total = sum(sizes[k] for k in plan)
    at = left = min(where(total), total)
    for i, kind in enumerate(plan):
        t = gw.text(kind)
        if len(t) != sizes[kind]:
            raise AssertionError("size of " + kind)
        if left <= len(t):
            lose(loop, conn, how, t[:left], [rng.randrange(left + 1)] if rng.random() < .3 else [])
            break
        conn.send(t)
        loop.settle()
        for f in split_frames(conn.poll()):
            gw.saw(f)
        left -= len(t)
    loop.advance(5.2)
    r = {"k": "shake", "plan": plan, "how": how, "cut": at, "total": total, "st": outcome(task)}
    r["after"] = again(rng, loop, client)
    loop.finish()
    return r, total


def every(rec, make, step=1):
    """Every point of one answer, the way it is lost in turn."""
    i = 0
    n = make(lambda n: n, HOW[0])[1]
    for at in range(0, n + 1, step):
        for how in (HOW if rec.thorough else [HOW[i % len(HOW)], HOW[(i + 2) % len(HOW)]]):
            rec.emit(make(lambda n: at, how)[0])
        i += 1


def c29(rec):
    rng = rec.rng
    kinds = ["cmd", "status", "dims", "one"]
    for kind in kinds:
        for others in ([], ["cmd"], ["one", "cmd", "status"]):
            for _ in range(1 if not rec.thorough else 5):
                every(rec, lambda where, how: cut(rng, kind, where, how, others))
    for session in SessionType:
        for waiting in (0, 1, 3):
            every(rec, lambda where, how: reads(rng, where, how, session, waiting))
    for plan in (["ack", "ack"], ["ack", "nonce", "ack"], ["ack", "sha1", "key", "good"], ["ack", "sha2", "key", "good"]):
        every(rec, lambda where, how: shake(rng, plan, where, how), 1 if len(plan) < 4 or rec.thorough else 3)
    for _ in range(400 if not rec.thorough else 12000):
        where = rng.choice([lambda n: n, lambda n: n - 1, lambda n: 0, lambda n: rng.randrange(n + 1), lambda n: rng.randrange(n + 1)])
        rec.emit(cut(rng, rng.choice(kinds), where, rng.choice(HOW), [rng.choice(kinds) for _ in range(rng.choice([0, 1, 4]))])[0])
