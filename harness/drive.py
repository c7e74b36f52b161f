"""Entry point of a driver process: python -m harness.drive <ID> <tier> <seed> <out> [<scripts>]"""
import importlib
import logging
import sys

from . import core
from .plans import PLANS


def main():
    pid, tier, seed, out = sys.argv[1:5]
    scripts = sys.argv[5] if len(sys.argv) > 5 else None
    logging.disable(logging.CRITICAL)
    plan = PLANS[pid]
    mod, fn = plan.driver.split(":")
    func = getattr(importlib.import_module("harness.drivers." + mod), fn)
    rec = core.Recorder(out, tier, int(seed))
    if scripts:
        func(rec, scripts)
    else:
        func(rec)
    rec.close()


main()
