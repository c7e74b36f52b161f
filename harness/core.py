"""Common parts of the drivers: recording, text encoding, time limits."""
import json
import random
import signal
import traceback


def codes(s):
    """Text as the specifications see it: a list of character codes."""
    return [ord(c) for c in str(s)]


def text(cs):
    return "".join(chr(c) for c in cs)


ABSENT = [-1]


class Slow(BaseException):
    """The code under test did not come back within the limit."""


class limit:
    """Interrupts the block with Slow after `seconds` of wall time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def on_alarm(*_):
            raise Slow()
        self.old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Recorder:
    def __init__(self, path, tier, seed):
        self.f = open(path, "w")
        self.n = 0
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(seed * 7919 + 13)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def emit(self, r):
        self.f.write(json.dumps(r, separators=(",", ":")) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def short_tb(e):
    return "".join(traceback.format_exception_only(type(e), e)).strip()[:300]
