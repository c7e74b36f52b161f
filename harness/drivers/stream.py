"""Drives OWNProtocol.data_received and whole clients with cut-up streams (C03, C04)."""
import asyncio
import itertools
import json

from pyown.client import Client, SessionType
from pyown.exceptions import ParseError
from pyown.protocol import OWNProtocol

from ..core import codes
from ..vloop import VLoop
from .message import rand_frame


def feed_protocol(packets, coded=codes):
    loop = VLoop()
    asyncio.set_event_loop(loop)
    r = dict(k="stream", via="protocol", packets=[list(p) for p in packets], got=[], types=[], err=[], closed=[])
    box = []

    async def make():
        box.append(OWNProtocol(loop.create_future(), loop.create_future()))

    async def read():
        while True:
            seen.append(await box[0].receive_messages())

    seen = []
    loop.run_until_complete(make())
    loop.task(read())
    for p in packets:
        err = "no"
        try:
            box[0].data_received(bytes(p))
        except ParseError:
            err = "parse"
        except UnicodeDecodeError:
            err = "ascii"
        except Exception:
            err = "other"
        loop.settle()
        r["got"].append([coded(m) for m in seen])
        r["types"].append([str(m.type) for m in seen])
        r["err"].append(err)
        r["closed"].append(False)
        seen.clear()
    loop.finish()
    return r


def feed_client(packets, session, coded=codes):
    """The same through a connected client and read_message."""
    loop = VLoop()
    asyncio.set_event_loop(loop)
    client = Client("gateway", 20000, "12345", session, loop=loop)
    r = dict(k="stream", via="client", packets=[list(p) for p in packets], got=[], types=[], err=[], closed=[])
    seen = []

    async def read():
        while True:
            seen.append(await client.read_message(timeout=None))

    t = loop.task(client.start())
    loop.settle()
    conn = loop.connections[0]
    conn.send("*#*1##")
    loop.settle()
    conn.send("*#*1##")
    loop.settle()
    t.result()
    loop.task(read())
    loop.settle()
    for p in packets:
        conn.send(bytes(p))
        loop.settle()
        conn.poll()
        r["got"].append([coded(m) for m in seen])
        r["types"].append([str(m.type) for m in seen])
        r["err"].append("no")
        r["closed"].append(conn.eof)
        seen.clear()
    loop.finish()
    return r


def runs(s):
    """Text as [character, how often] pairs."""
    return [[ord(c), len(list(g))] for c, g in itertools.groupby(str(s))]


def bulk(frames, points, session=None):
    """Long frames or many of them.  frames: [(text, blanks after it)]; points: where the stream is cut.
    The record holds the frames run-length coded and the end of every packet."""
    data = b"".join(f.encode() + b" " * g for f, g in frames)
    points = sorted({p for p in points if 0 < p < len(data)}) + [len(data)]
    packets, last = [], 0
    for p in points:
        packets.append(data[last:p])
        last = p
    r = feed_protocol(packets, runs) if session is None else feed_client(packets, session, runs)
    return dict(k="bulk", via=r["via"], frames=[runs(f) for f, _ in frames], gaps=[g for _, g in frames], ends=points,
                got=r["got"], err=r["err"], closed=r["closed"])


def bulks(rec):
    rng = rec.rng

    def digits(n):
        return "".join(rng.choice("0123456789") for _ in range(n))
    for n in (60, 120, 250, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 5000, 8192, 10000, 65535, 65536, 70000, 140000):
        body = "7" * n if n > 1100 else digits(n)
        frames = [("*#*1##", 0), ("*1*1*%s##" % body, 0), ("*1*0*2##", 0)]
        total = sum(len(f) for f, _ in frames)
        for session in (None, SessionType.EventSession):
            rec.emit(bulk(frames, [], session))
            rec.emit(bulk(frames, [6 + 3], session))
            rec.emit(bulk(frames, [total - 9], session))
            rec.emit(bulk(frames, [total - 10, total - 9], session))
            rec.emit(bulk(frames, range(max(1, total // 9), total, max(1, total // 9)), session))
        # many values, and many parameters
        if n < 11000:
            for unit in ("*1", "#12", "*3#4"):
                long = "*#4*1*0" + unit * (n // len(unit)) + "##"
                if "##" in long[:-2]:
                    continue
                rec.emit(bulk([(long, 1), ("*#*0##", 0)], [len(long) // 2, len(long) - 1]))
                rec.emit(bulk([(long, 1), ("*#*0##", 0)], range(13, len(long), 257)))
    # many frames at once, and one after the other
    for n in (50, 63, 64, 65, 100, 128, 129, 255, 256, 257, 513, 1001, 1025, 2049, 4100) + ((20000,) if rec.thorough else ()):
        frames = [("*1*%d*%d##" % (i % 2, i), i % 3) for i in range(1, n + 1)]
        total = sum(len(f) + g for f, g in frames)
        for session in (None, SessionType.EventSession, SessionType.CommandSession):
            rec.emit(bulk(frames, [], session))
            rec.emit(bulk(frames, [total // 2], session))
            rec.emit(bulk(frames, range(997, total, 997), session))
    frames = [("*1*1*%d##" % i, 0) for i in range(1, 1501)]
    rec.emit(bulk(frames, itertools.accumulate(len(f) for f, _ in frames)))
    rec.emit(bulk(frames, itertools.accumulate(len(f) for f, _ in frames), SessionType.EventSession))


def cuts(data, points):
    out, last = [], 0
    for p in sorted(points):
        out.append(data[last:p])
        last = p
    out.append(data[last:])
    return [x for x in out if x]


def rand_cut(rng, data):
    mode = rng.randrange(4)
    if mode == 0:
        return cuts(data, range(1, len(data)))
    if mode == 1:
        return [data]
    n = rng.randrange(0, min(len(data), 12))
    return cuts(data, rng.sample(range(1, len(data)), n) if n else [])


def well_formed(rng, n):
    out = b""
    for _ in range(n):
        f = rand_frame(rng)
        while "###" in f or f.endswith("###") or f[1:-2].find("##") >= 0:
            f = rand_frame(rng)
        out += f.encode() + rng.choice([b"", b"", b"", b" ", b"\n", b"\r\n", b"  ", b"\t", b" \t\n"])
    return out


def c03(rec, scripts):
    rng = rec.rng
    # every segmentation of short streams
    for data in (b"*#*1##*1##", b"*1*1##*#*0##", b"*#1*2##", b"*1*0*1## *#*1##"):
        n = len(data)
        every = list(itertools.product((0, 1), repeat=n - 1))
        if len(every) > 2048 and not rec.thorough:
            every = rng.sample(every, 1500)
        for mask in every:
            rec.emit(feed_protocol(cuts(data, [i + 1 for i, b in enumerate(mask) if b])))
    for _ in range(1500 if not rec.thorough else 20000):
        rec.emit(feed_protocol(rand_cut(rng, well_formed(rng, rng.randrange(1, 6)))))
    # a long stream in one packet and byte by byte
    data = well_formed(rng, 60)
    rec.emit(feed_protocol([data]))
    rec.emit(feed_protocol(cuts(data, range(1, len(data)))))
    rec.emit(feed_protocol(cuts(data, range(7, len(data), 7))))
    for i in range(250 if not rec.thorough else 3000):
        data = well_formed(rng, rng.randrange(1, 6))
        rec.emit(feed_client(rand_cut(rng, data), SessionType.EventSession if i % 2 else SessionType.CommandSession))
    bulks(rec)
    # behaviours generated from the specification
    for line in open(scripts):
        packets = json.loads(line)["packets"]
        rec.emit(feed_protocol(packets))


BAD = [b"x", b"*1*1x*1##", b"\x00", b"*1*1*1#x", b"\xff", b"*1*\x801*1##", b"*1*1\n*1##", b"* ", b"1*1*1##", b"*1*1*1# #", b"a##", b"*1*1*1#*#x",
       b"-", b"*1*-1*1##", b"\xc3\xa9", b"*#*1#a", b"*1,2*1##", b"GET / HTTP/1.1\r\n\r\n", b"*1*1*1##x##", b"x##*1*1*1##", b"*1*1\r\n"]


def c04(rec, scripts):
    rng = rec.rng
    for bad in BAD:
        for before in (b"", b"*#*1##", b"*1*1*1##*#*0##", b"*1*1*1", b"*1*1*1#"):
            for after in (b"", b"*1*0*2##", b"##", b"##*1*0*2##", b"*2*1*2"):
                rec.emit(feed_protocol([before + bad + after, b"*#*1##", b"*1*1*9##"]))
                if before:
                    rec.emit(feed_protocol([before, bad + after, b"*1*1*9##", b"*#*1##"]))
                if after:
                    rec.emit(feed_protocol([before + bad, after, b"*1*1*9##"]))
    for _ in range(2500 if not rec.thorough else 30000):
        a = well_formed(rng, rng.randrange(0, 4))
        a = a[:rng.randrange(len(a) + 1)] if rng.random() < .5 else a
        data = a + rng.choice(BAD) + well_formed(rng, rng.randrange(0, 3))
        packets = rand_cut(rng, data) if len(data) > 1 else [data]
        rec.emit(feed_protocol(packets + [b"*#*1##", well_formed(rng, 2)]))
    # something malformed after a long beginning of a frame
    for n in (70, 130, 260, 520, 1030, 2100, 4100, 5000, 9000):
        long = b"*1*" + b"7" * n
        for bad in (b"x", b"7x*1##", b"\xff", b"# ", b"#x#", b"7*1\n##*1*0*2##"):
            rec.emit(feed_protocol([long, bad, b"*#*1##", b"*1*1*9##"]))
            if n < 600:
                rec.emit(feed_protocol([b"*#*1##" + long + bad, b"*1*1*9##", b"*#*1##"]))
        rec.emit(feed_client([long, b"x"], SessionType.EventSession))
        rec.emit(feed_client([long[:n // 2], long[n // 2:], b"*1x"], SessionType.CommandSession))
    # every single byte value in every state of the automaton
    for b in range(256):
        for before in (b"", b"*1", b"*1#", b"*1*1*1##", b" "):
            rec.emit(feed_protocol([before + bytes([b]), b"*#*1##"]))
            rec.emit(feed_protocol([before, bytes([b]), b"*#*1##"] if before else [bytes([b]), b"*#*1##"]))
    for i in range(300 if not rec.thorough else 3000):
        a = well_formed(rng, rng.randrange(0, 4))
        data = a + rng.choice(BAD) + well_formed(rng, rng.randrange(0, 3))
        rec.emit(feed_client(rand_cut(rng, data) if len(data) > 1 else [data],
                             SessionType.EventSession if i % 2 else SessionType.CommandSession))
    for line in open(scripts):
        packets = json.loads(line)["packets"]
        rec.emit(feed_protocol(packets))
        if rng.random() < .2:
            rec.emit(feed_client(packets, SessionType.CommandSession))
