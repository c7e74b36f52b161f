"""Everything of a client that others can read (C28)."""
import asyncio
import base64
import contextlib
import hashlib
import io
import logging
import traceback
import warnings

from pyown.client import Client, SessionType
from pyown.items import Light
from pyown.messages import ACK

from ..core import codes
from ..vloop import VLoop, split_frames
from .session import ERRORS, Gateway, from_digits, rand_nonce, to_digits

LETTERS = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.texts = []
        self.setFormatter(logging.Formatter("%(levelname)s %(name)s %(message)s"))

    def emit(self, record):
        self.texts.append(self.format(record))


def life(rng, session, password, plan, faults, use):
    """One client from its birth to its end, with a gateway that follows the plan."""
    handler = Lines()
    root = logging.getLogger()
    level = root.level
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.addHandler(handler)
    root.setLevel(1)
    out = io.StringIO()
    texts = []
    nonces = []
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            fails = rng.sample(ERRORS, 2) if rng.random() < .3 else []

            def answer(conn):
                if fails:
                    raise fails.pop()
            loop = VLoop(gateway=answer)
            loop.set_debug(rng.random() < .3)
            asyncio.set_event_loop(loop)
            client = Client("gateway", 20000, password, session, loop=loop)
            gw = Gateway(rng, password, rand_nonce(rng), "%040x" % rng.getrandbits(160), rng.randrange(4))
            tasks = []
            # what does not work on a client that is not connected, and attempts that fail
            if rng.random() < .2:
                tasks += [loop.task(client.loop()), loop.task(client.read_message()), loop.task(client.send_message(ACK())), loop.task(client.close())]
                loop.advance(6)
            while fails:
                tasks.append(loop.task(client.start()))
                loop.advance(6)
            tasks.append(loop.task(client.start()))
            loop.settle()
            conn = loop.connections[-1]
            frames = []

            def poll():
                for f in split_frames(conn.poll()):
                    gw.saw(f)
                    frames.append(f)

            def forms():
                texts.append(("object", repr(client)))
                texts.append(("object", str(client)))
                texts.append(("object", repr(item)))
                texts.append(("object", str(item)))
            item = Light(client, "11")
            for kind in plan:
                poll()
                forms()
                if kind in faults:
                    if kind == "drop":
                        conn.close()
                    elif kind == "garbage":
                        conn.send("\xe0xyz")
                    elif kind == "silence":
                        loop.advance(5.5)
                else:
                    t = gw.text(kind)
                    if kind == "nonce":
                        nonces.append(gw.nonce)
                    conn.send(t)
                loop.settle()
            poll()
            if use:
                tasks.append(loop.task(Light(client, "11").turn_on()))
                loop.settle()
                poll()
                conn.send(rng.choice(["*#*1##", "*#*0##", "*1*1*11##", "x"]))
                loop.settle()
                tasks.append(loop.task(client.loop()))
                loop.settle()
            loop.advance(6)
            forms()
            tasks.append(loop.task(client.close()))
            loop.settle()
            poll()
            for t in tasks:
                if t.done() and not t.cancelled() and t.exception() is not None:
                    e = t.exception()
                    texts.append(("error", str(e)))
                    texts.append(("error", repr(e)))
                    texts.append(("error", "".join(traceback.format_exception(e))[-3000:]))
            loop.finish()
            texts += [("frame", f) for f in frames]
            # the numbers of a frame as the text that they encode
            for f in frames:
                for tag in f.strip("*#").split("*"):
                    with contextlib.suppress(ValueError):
                        if len(tag) >= 20:
                            texts.append(("frame", from_digits(tag)))
            texts += [("warning", str(w.message)) for w in warned]
    finally:
        root.removeHandler(handler)
        root.setLevel(level)
        logging.disable(disabled)
    texts += [("log", t[-3000:]) for t in handler.texts]
    texts.append(("printed", out.getvalue()[-3000:]))
    secrets = [password]
    for h in (hashlib.sha1, hashlib.sha256, hashlib.md5):
        d = h(password.encode()).hexdigest()
        secrets += [d, d.upper(), to_digits(d)]
    raw = password.encode()
    secrets += [raw.hex(), raw.hex().upper(), password[::-1], raw.hex(" "), ", ".join(map(str, raw)), base64.b64encode(raw).decode().rstrip("="),
                format(int.from_bytes(raw, "big"), "d")]
    if not password.isdigit():  # a part of it (digits would be found by chance in proofs and keys)
        secrets += [password[k:k + 6] for k in range(len(password) - 5)]
    if password.isdigit():
        n = int(password)
        secrets += [format(n, f) for f in ("x", "X", "o", "b", ",", "_")]
    seen, unique = set(), []
    for x in texts:
        if x[1] and x not in seen:
            seen.add(x)
            unique.append(x)
    bits = int(password) if password.isdigit() and int(password) < 2 ** 32 else 0
    return {"k": "life", "plan": list(plan), "texts": [{"from": a, "t": codes(b)} for a, b in unique], "secrets": [codes(s) for s in secrets],
            "nonces": [codes(n) for n in nonces], "bits": [int(x) for x in format(bits, "032b")]}


PLANS = [["ack", "ack"], ["ack", "nonce", "ack"], ["ack", "nonce", "nack"], ["ack", "nonce", "event"], ["ack", "sha1", "key", "good"],
         ["ack", "sha2", "key", "good"], ["ack", "sha1", "key", "wrongpw"], ["ack", "sha2", "key", "nack"], ["ack", "sha2", "key", "trunc"],
         ["ack", "sha1", "key", "event"], ["ack", "sha1", "nack"], ["ack", "sha2", "event"], ["ack", "sha3"], ["nack"], ["ack", "nack"],
         ["ack", "event"], ["event"], ["ack", "response"], ["ack", "sha2", "nonce"], ["ack", "nonce", "sha1"]]
FAULTS = ("drop", "garbage", "silence")


def c28(rec):
    rng = rec.rng
    for _ in range(3 if not rec.thorough else 60):
        for p in PLANS:
            for cut in range(len(p) + 1):
                for fault in FAULTS + (None,):
                    if fault is None and cut < len(p):
                        continue
                    plan = p[:cut] + ([fault] if fault else [])
                    digits = str(rng.randrange(10 ** 8, 2 ** 32))
                    text = "".join(rng.choice(LETTERS) for _ in range(6)) + rng.choice(["", "!", "%", " "]) + "".join(rng.choice(LETTERS) for _ in range(5))
                    password = digits if rng.random() < .5 else text
                    rec.emit(life(rng, rng.choice(list(SessionType)), password, plan, FAULTS, rng.random() < .6))
