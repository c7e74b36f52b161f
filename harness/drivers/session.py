"""Handshakes of the real client with a scripted gateway (C10, C11)."""
import asyncio
import hashlib
import json

from pyown.client import Client, SessionType
from pyown.exceptions import InvalidAuthentication

from ..core import codes
from ..vloop import VLoop, split_frames

SESSIONS = {"9": SessionType.CommandSession, "0": SessionType.OldCommandSession, "1": SessionType.EventSession}
CLIENT_ID, SERVER_ID = "736F70653E", "636F70653E"


def sha(alg, text):
    return (hashlib.sha1 if alg == 1 else hashlib.sha256)(text.encode()).hexdigest()


def to_digits(h):
    return "".join("%02d" % int(c, 16) for c in h)


def from_digits(d):
    return "".join("%x" % int(d[i:i + 2]) for i in range(0, len(d), 2))


def outcome(task):
    if not task.done():
        return "pending"
    if task.cancelled():
        return "cancelled"
    e = task.exception()
    if e is None:
        return "ok"
    if isinstance(e, InvalidAuthentication):
        return "auth"
    if isinstance(e, TimeoutError):
        return "timeout"
    return "other " + type(e).__name__


class Gateway:
    """Turns the frame kinds of the specification into frames."""

    def __init__(self, rng, password, nonce, ra, variant=0):
        self.rng, self.password, self.nonce, self.ra = rng, password, nonce, ra
        self.rb, self.alg, self.client_digest = None, 1, None
        self.variant = variant
        self.last = "ab"

    def saw(self, frame):
        if frame.startswith("*#") and frame.count("*") == 2 and len(frame) > 100:
            key, digest = frame[2:-2].split("*")
            try:
                self.rb = from_digits(key)
                self.client_digest = digest
            except ValueError:
                pass

    def proof(self, password=None, rb=None, alg=None):
        p = self.password if password is None else password
        a = alg or self.alg
        return to_digits(sha(a, self.ra + (rb or self.rb or "ab") + sha(a, p)))

    def text(self, kind):
        v = self.variant
        if kind in ("sha1", "sha2"):
            self.alg = int(kind[3])
        return {
            "ack": lambda: "*#*1##",
            "nack": lambda: "*#*0##",
            "nonce": lambda: f"*#{self.nonce}##",
            "sha1": lambda: "*98*1##",
            "sha2": lambda: "*98*2##",
            "sha3": lambda: ["*98*3##", "*98*0##", "*98*11##", "*98*255##"][v % 4],
            "event": lambda: self.rng.choice(["*1*1*11##", "*2*0*#3##", "*16*3*1*2##", "*5*1##", "*#*11##", "*#*10##", "*#*01##", "*#*1*1##", "*#*1*##", "**#*1##", "*#*##"]),
            "response": lambda: ["*#13**15*2##", "*#1*11*1*150*5##", "*#2*11##", "*#13**#0*1*2##"][v % 4],
            "key": lambda: f"*#{to_digits(self.ra)}##",
            "good": lambda: f"*#{self.proof()}##",
            "wrongpw": lambda: f"*#{self.proof(password=self.password + '1')}##",
            "replay": lambda: f"*#{self.proof(rb='%040x' % self.rng.getrandbits(160))}##",
            "echo": lambda: f"*#{self.client_digest or to_digits('ab')}##",
            "trunc": lambda: f"*#{self.proof()[:[-2, 2, 40, -20][v % 4]]}##",
            "longer": lambda: f"*#{self.proof()}{['01', '0' * 40, '15', '00'][v % 4]}##",
            "otheralg": lambda: f"*#{self.proof(alg=3 - self.alg)}##",
            "flip": lambda: self.flip(),
            "swapped": lambda: f"*#{to_digits(sha(self.alg, (self.rb or 'ab') + self.ra + sha(self.alg, self.password)))}##",
            "nopass": lambda: f"*#{to_digits(sha(self.alg, self.ra + (self.rb or 'ab')))}##",
            "clear": lambda: f"*#{to_digits(sha(self.alg, self.ra + (self.rb or 'ab') + self.password))}##",
            # the right number in a frame that is not *#number##
            "barenonce": lambda: f"*{self.nonce}##",
            "twononces": lambda: f"*#{self.nonce}*#{self.nonce}##",
            "parnonce": lambda: f"*#{self.nonce}#1##",
            "algtail": lambda: ["*98*1*2##", "*98*2*1##", "*98*1*##", "*98*2*#2##"][v % 4],
            "alone": lambda: ["*98##", "*99##", "*1##", "*##"][v % 4],
            "barekey": lambda: f"*{to_digits(self.ra)}##",
            "keytail": lambda: f"*#{to_digits(self.ra)}*1##",
            "nothex": lambda: f"*#{to_digits(self.ra)[:-2]}{['16', '99', '20', '71'][v % 4]}##",
            "oddkey": lambda: f"*#{to_digits(self.ra)}{v % 10}##",
            "baregood": lambda: f"*{self.proof()}##",
            "goodtail": lambda: f"*#{self.proof()}*{['1', '', '#1', self.proof()][v % 4]}##",
            "goodlast": lambda: f"*#{['1', '98', '*#', to_digits(self.ra)][v % 4]}*#{self.proof()}##".replace("**", "*"),
            "goodpar": lambda: f"*#{self.proof()}#{['1', '0', '12', '4'][v % 4]}##",
            "old": lambda: f"*#{self.proof(rb=self.last)}##",
            "ra": lambda: f"*#{to_digits(self.ra)}##",
            "rb": lambda: f"*#{to_digits(self.rb or 'ab')}##",
        }[kind]()

    def flip(self):
        p = self.proof()
        i = self.rng.randrange(len(p) // 2) * 2
        v = (int(p[i:i + 2]) + self.rng.randrange(1, 16)) % 16
        return f"*#{p[:i]}{v:02d}{p[i + 2:]}##"


def handshake(rng, steps, *, session="9", password="12345", nonce="603356072", ra=None, cut=False, variant=0, client=None, last="ab"):
    ra = ra or "%0*x" % (40, rng.getrandbits(160))
    gw = Gateway(rng, password, nonce, ra, variant)
    gw.last = last
    used = client is not None
    if used:
        client, loop = client
    else:
        loop = VLoop()
        asyncio.set_event_loop(loop)
        client = Client("gateway", 20000, password, SESSIONS[session], loop=loop)
    task = loop.task(client.start())
    loop.settle()
    conn = loop.connections[-1]

    def observe():
        frames = split_frames(conn.poll())
        for f in frames:
            gw.saw(f)
        return {"sent": [codes(f) for f in frames], "res": outcome(task)}

    r = {"k": "hs", "session": codes(session), "password": codes(password),
         "bits": [int(x) for x in format(int(password) if password.isdigit() and int(password) < 2 ** 32 else 0, "032b")],
         "steps": [], "obs0": observe(), "obs": [], "oracle": []}
    for st in steps:
        kind = st["in"]
        out = {"in": kind, "frames": [], "ms": 0}
        if kind == "frames":
            frames = [gw.text(k) for k in st["kinds"]]
            out["frames"] = [codes(f) for f in frames]
            data = "".join(frames).encode()
            if cut:
                i = 0
                while i < len(data):
                    n = rng.choice([1, 2, 3, 7, 20, 60])
                    conn.send(data[i:i + n])
                    loop.settle()
                    i += n
            else:
                conn.send(data)
            loop.settle()
        elif kind == "elapse":
            out["ms"] = st["ms"]
            loop.advance(st["ms"] / 1000)
        elif kind == "drop":
            conn.poll()
            conn.close()
            loop.settle()
        elif kind == "garbage":
            conn.send("xyz")
            loop.settle()
        r["steps"].append(out)
        r["obs"].append(observe())
    if gw.rb:
        texts = set()
        keys = {"".join(map(chr, f))[2:-2] for st in r["steps"] for f in st["frames"]}
        keys = {from_digits(k) for k in keys if k.isdigit() and len(k) % 2 == 0
                and all(int(k[i:i + 2]) < 16 for i in range(0, len(k), 2))}
        for alg in (1, 2):
            kab = sha(alg, password)
            texts.add((alg, password))
            for k in keys:
                texts |= {(alg, k + gw.rb + CLIENT_ID + SERVER_ID + kab), (alg, k + gw.rb + kab)}
        r["oracle"] = [{"alg": a, "text": codes(t), "hash": codes(sha(a, t))} for a, t in sorted(texts)]
    if not used:
        loop.finish()
    return r, gw


def sessions(rng, session, password, plans, ra=None):
    """One client that is started again and again; the keys it made and the records of its handshakes."""
    loop = VLoop()
    asyncio.set_event_loop(loop)
    client = Client("gateway", 20000, password, SESSIONS[session], loop=loop)
    keys, records, last = [], [], "ab"
    for plan in plans:
        r, gw = handshake(rng, [F(k) for k in plan], session=session, password=password, ra=ra, nonce=rand_nonce(rng), variant=rng.randrange(4),
                          client=(client, loop), last=last)
        records.append(r)
        if gw.rb:
            keys.append(codes(gw.rb))
            last = gw.rb
        if rng.random() < .3:
            loop.connections[-1].close()
            loop.settle()
        loop.task(client.close())
        loop.settle()
        if rng.random() < .3:
            loop.advance(rng.choice([.01, 3, 40, 4000]))
    loop.finish()
    return records, keys


ERRORS = [ConnectionRefusedError(), ConnectionResetError(), OSError(113, "No route"), TimeoutError(),
          OSError(101, "Network is unreachable"), BrokenPipeError(), PermissionError(), ConnectionAbortedError()]


def gaierror():
    import socket
    return socket.gaierror(-2, "Name or service not known")


def unreachable(error, session):
    def refuse(conn):
        raise error
    loop = VLoop(gateway=refuse)
    asyncio.set_event_loop(loop)
    client = Client("gateway", 20000, "12345", SESSIONS[session], loop=loop)
    task = loop.task(client.start())
    loop.settle()
    loop.advance(6)
    r = {"k": "unreachable", "error": type(error).__name__, "res": outcome(task)}
    loop.finish()
    return r


PASSWORDS = ["12345", "0", "1", "4294967295", "987654321", "100000", "2147483648"]
TEXT_PASSWORDS = PASSWORDS + ["abcde", "p4ssw0rd!", "*#*1##", "x" * 200, "With Space", ""]


def F(*kinds):
    return {"in": "frames", "kinds": list(kinds)}


def W(ms):
    return {"in": "elapse", "ms": ms}


DROP, GARBAGE = {"in": "drop"}, {"in": "garbage"}
ODD = ["barenonce", "twononces", "parnonce", "algtail", "alone", "barekey", "keytail", "nothex", "oddkey", "baregood", "goodtail", "goodlast", "goodpar", "old"]
KINDS = ["ack", "nack", "nonce", "sha1", "sha2", "sha3", "event", "response", "key", "good", "wrongpw"] + ODD


def rand_nonce(rng):
    n = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 3, 8, 9, 10, 12])))
    return n if n.strip("0") else n + "7"


def c10(rec, scripts):
    rng = rec.rng
    every = [json.loads(x)["steps"] for x in open(scripts)]
    for i, steps in enumerate(every):
        rec.emit(handshake(rng, steps, session="910"[i % 3], password=rng.choice(PASSWORDS),
                           nonce=rand_nonce(rng), cut=rng.random() < .3, variant=rng.randrange(4))[0])
    # the documented conversations, with waits just short of the limit before every frame
    plans = [["ack", "ack"], ["ack", "nonce", "ack"], ["ack", "nonce", "nack"], ["ack", "sha1", "key", "good"],
             ["ack", "sha2", "key", "good"], ["ack", "sha3"], ["nack"], ["ack", "nack"], ["ack", "sha2", "key", "nack"],
             ["ack", "sha1", "nack"], ["ack", "sha1", "ack"], ["ack", "nonce", "nonce"]]
    for _ in range(20 if not rec.thorough else 200):
        for p in plans:
            for session in "910":
                steps = []
                for k in p:
                    if rng.random() < .5:
                        steps += [W(rng.choice([10, 1000, 4000, 4990]))]
                    steps.append(F(k))
                if rng.random() < .3:
                    i = rng.randrange(len(steps))
                    steps[i:] = [rng.choice([DROP, GARBAGE, W(5010)]), W(10), W(5010)]
                else:
                    steps += [F(rng.choice(["ack", "nack", "event"])), W(5010)]
                rec.emit(handshake(rng, steps, session=session, password=rng.choice(PASSWORDS), nonce=rand_nonce(rng),
                                   cut=rng.random() < .5, variant=rng.randrange(4))[0])
    for _ in range(600 if not rec.thorough else 10000):
        steps, seen = [], []
        for _ in range(rng.randrange(1, 7)):
            good = {0: "ack", 1: rng.choice(["ack", "nonce", "sha1", "sha2"])}.get(
                len(seen), {"nonce": "ack", "sha1": "key", "sha2": "key", "key": "good"}.get(seen[-1] if seen else "", "ack"))
            k = good if rng.random() < .8 else rng.choice(KINDS)
            seen.append(k)
            steps.append(F(k))
            if rng.random() < .3:
                steps.append(W(rng.choice([10, 2500, 4990, 5010])))
        steps.append(rng.choice([DROP, GARBAGE, W(10), W(4990), F("ack")]))
        steps += [W(4970), W(5050)]
        rec.emit(handshake(rng, steps, session=rng.choice("910"), password=rng.choice(PASSWORDS), nonce=rand_nonce(rng),
                           cut=rng.random() < .5, variant=rng.randrange(4))[0])
    # the same conversations with frames that arrive together, and with more behind the last one
    for p in plans + [["ack", "ack", "event", "event"], ["ack", "nonce", "ack", "event"], ["ack", "sha1", "key", "good", "event"], ["ack", "sha2", "key", "good", "nack"]]:
        for mask in range(1 << (len(p) - 1)):
            groups = [[p[0]]]
            for i, k in enumerate(p[1:]):
                # the proof needs the client's key: it cannot come with the server's
                if mask >> i & 1 and not (k == "good" and groups[-1][-1] == "key"):
                    groups[-1].append(k)
                else:
                    groups.append([k])
            for cut in (False, True):
                rec.emit(handshake(rng, [F(*g) for g in groups] + [W(5010)], session=rng.choice("910"), password=rng.choice(PASSWORDS),
                                   nonce=rand_nonce(rng), cut=cut, variant=rng.randrange(4))[0])
    # every frame at every point of every conversation
    for p in (["ack", "ack"], ["ack", "nonce", "ack"], ["ack", "sha1", "key", "good"], ["ack", "sha2", "key", "good"]):
        for at in range(len(p)):
            for k in KINDS:
                for variant in range(4):
                    steps = [F(x) for x in p[:at] + [k] + p[at + 1:]] + [W(5010)]
                    rec.emit(handshake(rng, steps, session="910"[variant % 3], password=rng.choice(PASSWORDS), nonce=rand_nonce(rng), variant=variant)[0])
    # one client again and again
    for _ in range(12 if not rec.thorough else 200):
        plan = [rng.choice([["ack", "ack"], ["ack", "nonce", "ack"], ["ack", "nonce", "nack"], ["ack", "sha1", "key", "good"], ["ack", "sha2", "key", "good"],
                            ["ack", "sha2", "key", "wrongpw"], ["nack"], ["ack"], ["ack", "nack"], []]) for _ in range(10)]
        for r in sessions(rng, rng.choice("910"), rng.choice(PASSWORDS), plan)[0]:
            rec.emit(r)
    # passwords that the OPEN algorithm has no answer for
    for pw in ["abcde", "p4ssw0rd!", "*#*1##", "x" * 200, "With Space", "", "12a45", "12#45", "0x1234", "12.5", "-"]:
        for session in "910":
            for plan in (["ack", "nonce", "ack"], ["ack", "nonce", "nack"], ["ack", "nonce"], ["ack", "ack"], ["ack", "sha1", "key", "good"], ["ack", "sha2", "nonce"]):
                rec.emit(handshake(rng, [F(k) for k in plan] + [W(5010)], session=session, password=pw, nonce=rand_nonce(rng), variant=rng.randrange(4))[0])
    for e in ERRORS + [gaierror()]:
        for s in "910":
            rec.emit(unreachable(e, s))


PROOFS = ["good", "wrongpw", "replay", "echo", "trunc", "longer", "otheralg", "flip", "swapped", "nopass", "clear", "ra", "rb",
          "ack", "nack", "event", "response", "nonce", "key", "sha1", "sha2", "sha3", *ODD]


def c11(rec, scripts):
    rng = rec.rng
    every = [json.loads(x)["steps"] for x in open(scripts)]
    every = [s for s in every if any(k in ("sha1", "sha2") for e in s for k in e.get("kinds", []))]
    for i, steps in enumerate(every):
        rec.emit(handshake(rng, steps, session="910"[i % 3], password=rng.choice(PASSWORDS),
                           nonce=rand_nonce(rng), cut=rng.random() < .3, variant=rng.randrange(4))[0])
    for rep in range(4 if not rec.thorough else 60):
        for alg in ("sha1", "sha2"):
            for proof in PROOFS:
                for pw in TEXT_PASSWORDS:
                    n = rng.choice([1, 2, 8, 40, 40, 40, 64, 64, 64, 128])
                    ra = rng.choice(["%0*x" % (n, rng.getrandbits(4 * n)), "0" * n, "f" * n, "0123456789abcdef"])
                    steps = [F("ack"), F(alg), F("key"), F(proof), F(rng.choice(["good", "ack", "nack"])), W(5010)]
                    rec.emit(handshake(rng, steps, session=rng.choice("910"), password=pw, ra=ra, variant=rep,
                                       cut=rng.random() < .3)[0])
    # proofs that differ in a single digit, everywhere
    for alg in ("sha1", "sha2"):
        for _ in range(60 if not rec.thorough else 2000):
            rec.emit(handshake(rng, [F("ack"), F(alg), F("key"), F("flip")], password=rng.choice(TEXT_PASSWORDS))[0])
    # a client key is never used twice, whatever the server key
    for alg in ("sha1", "sha2"):
        ra = "%040x" % rng.getrandbits(160)
        keys = []
        for _ in range(30):
            r, gw = handshake(rng, [F("ack"), F(alg), F("key"), F("good")], ra=ra)
            rec.emit(r)
            keys.append(codes(gw.rb or ""))
        rec.emit({"k": "fresh", "keys": keys, "ra": codes(ra)})
    # nor by a client that is started again, whether it was accepted or not; an old proof is worth nothing
    for _ in range(6 if not rec.thorough else 60):
        for algs in (["sha1"], ["sha2"], ["sha1", "sha2"]):
            ra = "%040x" % rng.getrandbits(160)
            plan = [["ack", rng.choice(algs), "key", rng.choice(["good", "good", "old", "wrongpw", "nack"])] for _ in range(8)]
            records, keys = sessions(rng, rng.choice("910"), rng.choice(TEXT_PASSWORDS), plan, ra)
            for r in records:
                rec.emit(r)
            rec.emit({"k": "fresh", "keys": keys, "ra": codes(ra)})
