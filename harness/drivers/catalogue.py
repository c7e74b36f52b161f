"""Every method of every item: the frames it sends (C18), the values it returns (C19), the clock (C20)."""
import ctypes
import datetime
import os

from pyown.client import SessionType
from pyown.items.energy.enums import DimensionEnergy

from .. import catalogue as cat
from ..catalogue import NONE, Bench, arguments, canon, state
from ..core import codes


class Caller:
    def __init__(self, rec):
        self.rec = rec
        self.bench = None

    def get(self, fresh=False):
        if self.bench is None or fresh:
            if self.bench is not None:
                self.bench.close()
            self.bench = Bench(self.rec.rng.choice([SessionType.CommandSession, SessionType.OldCommandSession]))
        return self.bench

    def call(self, cls, where, m, a=(), py=None, kw=None):
        b = self.get()
        now = [datetime.datetime.now()]
        try:
            t = b.call(cls, where, m, arguments(m, a) if py is None else py, kw)
        finally:
            now.append(datetime.datetime.now())
        frames = b.frames()
        st = state(t)
        r = {"k": "call", "cls": cls, "m": m, "w": codes(where), "a": list(a), "now": [[n.year, n.month, n.day] for n in now],
             "frames": [codes(f) for f in frames], "st": "sent" if st == "pending" else st}
        if m == "turn_on_30_min":
            r["key"] = "turn-on-30-min"
        # the answer, so that the next call starts from the same place; nothing more is to be sent after it
        if not t.done():
            if len(frames) == 1:
                b.reply("*#*1##")
                r["frames"] += [codes(f) for f in b.frames()]
            self.rec.emit(r)
            if len(frames) != 1 or not t.done():
                t.cancel()
                self.get(fresh=True)
        else:
            self.rec.emit(r)
            if frames:
                self.get(fresh=True)
        return r


def c18(rec):
    rng = rec.rng
    c = Caller(rec)
    opt = [NONE, 0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 254, 255, 256, 257, 300, 1000, 65535, -1, -2, -255]
    for cls, addresses in cat.ADDRESSES.items():
        for w in addresses + (["%d%d" % (rng.randrange(1, 10), rng.randrange(1, 10)) for _ in range(5)] if cls in ("Light", "Dimmer", "Automation") else []):
            for m in cat.SIMPLE[cls] + cat.QUERIES[cls]:
                c.call(cls, w, m)
            if cls in ("Light", "Dimmer"):
                c.call(cls, w, "turn_on_30_min")
                c.call(cls, w, "temporization_command", [rng.randrange(24), rng.randrange(60), rng.randrange(60)])
            if cls == "Dimmer":
                for m in ("turn_on", "turn_off"):
                    c.call(cls, w, m, [rng.randrange(256)])
                for m in ("up_percent", "down_percent"):
                    c.call(cls, w, m, [rng.randrange(101), rng.randrange(256)])
                    c.call(cls, w, m, [rng.randrange(101), NONE])
                    c.call(cls, w, m, [NONE, NONE])
                    c.call(cls, w, m, [NONE, rng.randrange(256)])
                c.call(cls, w, "set_hsv", [rng.randrange(360), rng.randrange(101), rng.randrange(101)])
                c.call(cls, w, "set_white_temperature", [rng.randrange(1, 65535)])
                c.call(cls, w, "set_brightness_with_speed", [rng.randrange(100, 201), rng.randrange(256)])
            if cls == "Camera":
                for x in range(-1, 7):
                    for y in range(-1, 7):
                        c.call(cls, w, "display_dial", [x, y])
            if cls in ("EnergyManagement", "StopGo"):
                for month in (NONE, *range(1, 13)):
                    c.call(cls, w, "start_sending_daily_totalizers_hourly", [rng.choice([NONE, *range(1, 32)]), month])
                    c.call(cls, w, "start_sending_daily_totalizers_hourly", [rng.randrange(1, 32), month])
                    c.call(cls, w, "start_sending_monthly_average_hourly", [month])
                    c.call(cls, w, "start_sending_monthly_totalizers_current_year", [month])
                    c.call(cls, w, "start_sending_monthly_totalizers_last_year", [month])
                    c.call(cls, w, "get_energy_unit_per_month", [month, rng.choice([NONE, *range(100)])])
                    c.call(cls, w, "get_energy_unit_per_month", [month, rng.randrange(100)])
                for t in (NONE, 1, 2, 9, 10, 99, 100, 253, 254):
                    c.call(cls, w, "force_actuator_on", [t])
                for n in (1, 2):
                    c.call(cls, w, "reset_totalizers", [n])
                    c.call(cls, w, "get_totalizers", [n])
                for t in (1, 2, 9, 10, 60, 99, 100, 254, 255):
                    c.call(cls, w, "start_sending_instant_power", [t])
                    c.call(cls, w, "start_sending_instant_power", [t, rng.choice([1, 2])])
                c.call(cls, w, "stop_sending_instant_power", [])
                c.call(cls, w, "stop_sending_instant_power", [rng.choice([1, 2])])
            if cls == "StopGo":
                for d in range(250, 264):
                    c.call(cls, w, "request_status", [d], py=[], kw={"dim_req": DimensionEnergy(str(d))})
    # whole ranges, and both sides of every limit
    for m in ("turn_on", "turn_off"):
        for s in [NONE, *range(-20, 280)]:
            c.call("Dimmer", "11", m, [s])
    for m in ("up_percent", "down_percent"):
        for v in [NONE, *range(-10, 112), 255, 256, 1000]:
            c.call("Dimmer", "11", m, [v, NONE])
            c.call("Dimmer", "11", m, [v, rng.choice(opt)])
        for s in opt + list(range(0, 256, 5)):
            c.call("Dimmer", "11", m, [NONE, s])
            c.call("Dimmer", "11", m, [rng.randrange(101), s])
    for h in [*range(-5, 366), 720, 1000]:
        c.call("Dimmer", "11", "set_hsv", [h, rng.randrange(101), rng.randrange(101)])
    for s in [*range(-5, 106), 255, 359]:
        c.call("Dimmer", "11", "set_hsv", [rng.randrange(360), s, rng.randrange(101)])
        c.call("Dimmer", "11", "set_hsv", [rng.randrange(360), rng.randrange(101), s])
    for t in [-65535, -1, 0, 1, 2, 9, 10, 99, 100, 255, 256, 1000, 9999, 10000, 32767, 32768, 65533, 65534, 65535, 65536, 100000] + \
            [rng.randrange(1, 65535) for _ in range(100)]:
        c.call("Dimmer", "11", "set_white_temperature", [t])
    for cls in ("Light", "Dimmer"):
        for h in range(0, 30):
            c.call(cls, "11", "temporization_command", [h, rng.randrange(60), rng.randrange(60)])
        for x in range(0, 70):
            c.call(cls, "11", "temporization_command", [rng.randrange(24), x, rng.randrange(60)])
            c.call(cls, "11", "temporization_command", [rng.randrange(24), rng.randrange(60), x])
        for a in ([24, 0, 0], [0, 60, 0], [0, 0, 60], [23, 59, 59], [0, 0, 0], [24, 60, 60], [100, 0, 0], [0, 0, 255], [0, 255, 0]):
            c.call(cls, "11", "temporization_command", a)
    for b in range(100, 201):
        c.call("Dimmer", "11", "set_brightness_with_speed", [b, rng.randrange(256)])
        c.call("Dimmer", "11", "set_brightness_with_speed", [b, b], py=[str(b), str(b)])
    for s in range(0, 256):
        c.call("Dimmer", "11", "set_brightness_with_speed", [rng.randrange(100, 201), s])
    for _ in range(60):
        clock(c, rng)


    for d in dates(rng, rec.thorough):
        for cls, w in (("EnergyManagement", "51"), ("StopGo", cat.ADDRESSES["StopGo"][0])):
            m, y, n = rng.randrange(1, 13), rng.randrange(100), rng.randrange(1, 32)
            for a in ([NONE, NONE], [NONE, m], [n, NONE]):
                c.call(cls, w, "start_sending_daily_totalizers_hourly", a)
            for k in ("start_sending_monthly_average_hourly", "start_sending_monthly_totalizers_current_year", "start_sending_monthly_totalizers_last_year"):
                c.call(cls, w, k, [NONE])
            for a in ([NONE, NONE], [NONE, y], [m, NONE], [d.month, NONE], [1, NONE], [12, NONE]):
                c.call(cls, w, "get_energy_unit_per_month", a)


def dates(rng, thorough):
    """Sets the date of this process, where the check could arrange for it (harness/clockshim.c)."""
    if not os.environ.get("VP_CLOCK"):
        return
    shim = ctypes.CDLL(os.environ["VP_CLOCK"])
    shim.vp_clock.argtypes = [ctypes.c_longlong]
    out = [datetime.datetime(2027, m, 1, 0, 0, 5) for m in range(1, 13)]
    out += [d - datetime.timedelta(seconds=3600) for d in out]
    out += [datetime.datetime(y, m, d, 12) for y, m, d in ((2028, 2, 29), (2029, 2, 28), (2030, 10, 10), (2099, 12, 31), (2100, 1, 1), (2100, 2, 28), (2105, 6, 9), (2000, 1, 1), (2009, 9, 9), (2010, 11, 30))]
    out += [datetime.datetime(rng.randrange(2000, 2130), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), 30) for _ in range(20 if not thorough else 2000)]
    try:
        for d in out:
            shim.vp_clock(0)
            shim.vp_clock(int((d - datetime.datetime.now()).total_seconds()))
            yield datetime.datetime.now().date()
    finally:
        shim.vp_clock(0)


def clock(c, rng):
    z = rng.choice([NONE, *range(-23, 24)])
    t = [rng.randrange(24), rng.randrange(60), rng.randrange(60), z]
    d = rng.choice(DAYS)(rng)
    c.call("Gateway", "", "set_time", t)
    c.call("Gateway", "", "set_date", [d.day, d.month, d.year])
    c.call("Gateway", "", "set_datetime", t + [d.day, d.month, d.year])


def any_day(rng):
    return datetime.date.fromordinal(rng.randrange(datetime.date(1000, 1, 1).toordinal(), datetime.date(9999, 12, 31).toordinal() + 1))


def near_day(rng):
    return datetime.date.fromordinal(rng.randrange(datetime.date(1990, 1, 1).toordinal(), datetime.date(2060, 1, 1).toordinal()))


def edge_day(rng):
    y = rng.choice([1000, 1582, 1600, 1700, 1899, 1900, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2026, 2038, 2100, 2400, 9999])
    return rng.choice([datetime.date(y, 1, 1), datetime.date(y, 12, 31), datetime.date(y, 3, 1), datetime.date(y, 2, 28),
                       datetime.date(y, 3, 1) - datetime.timedelta(days=1)])


DAYS = [any_day, near_day, near_day, edge_day]


# ---- responses ---------------------------------------------------------------------
def pad(rng, n, w=2):
    return rng.choice([str(n), str(n).zfill(w)])


def tzs(rng):
    h = rng.randrange(0, 24)
    return rng.choice("01") + "%02d" % h if rng.random() < .9 else rng.choice(["000", "100", "", "001", "123", "023"])


def time_values(rng):
    return ["%02d" % rng.randrange(24), "%02d" % rng.randrange(60), "%02d" % rng.randrange(60), tzs(rng)]


def date_values(rng):
    d = rng.choice(DAYS)(rng)
    return ["%02d" % (d.isoweekday() % 7), "%02d" % d.day, "%02d" % d.month, "%04d" % d.year]


def octet(rng):
    return pad(rng, rng.choice([0, 1, 9, 10, 15, 16, 99, 100, 127, 128, 160, 170, 171, 192, 254, 255, rng.randrange(256)]), 3)


def energy(rng):
    return rng.choice([str(rng.randrange(10)), str(rng.randrange(100000)), str(rng.randrange(10 ** 12)), "0", "007", str(2 ** 31), str(2 ** 32 - 1)])


def flag(rng):
    return rng.choice("01")


MASKS = ["255*255*255*0", "255*255*0*0", "255*0*0*0", "255*255*255*128", "255*255*255*252", "255*255*240*0", "255*255*254*0", "255*224*0*0", "128*0*0*0",
         "255*255*255*255", "0*0*0*0", "255*255*255*192", "255*255*255*224", "255*255*248*0", "255*255*255*240", "255*255*255*248", "255*255*255*254"]


def values(rng, m):
    """The values of a well-formed response."""
    n = rng.randrange
    if m == "temporization_request":
        return [pad(rng, n(24)), pad(rng, n(60)), pad(rng, n(60))]
    if m == "request_working_time_lamp":
        return [str(rng.choice([1, 9, 10, 99, 100000, n(1, 100001)]))]
    if m == "request_current_brightness_speed":
        return [str(n(100, 201)), str(n(256))]
    if m == "request_current_hsv":
        return [pad(rng, n(360), 3), str(n(101)), str(n(101))]
    if m == "request_current_white_temperature":
        return [str(rng.choice([1, 65534, n(1, 65535)]))]
    if m == "get_actuators_info":
        return [flag(rng) for _ in range(5)] + [rng.choice("12")]
    if m == "get_differential_current_level":
        return [rng.choice("123")]
    if m == "get_totalizers":
        d = near_day(rng)
        return [energy(rng), pad(rng, d.day), pad(rng, d.month), str(d.year), pad(rng, n(24)), pad(rng, n(60))]
    if m == "get_time":
        return time_values(rng)
    if m == "get_date":
        return date_values(rng)
    if m == "get_datetime":
        return time_values(rng) + date_values(rng)
    if m in ("get_ip", "get_netmask"):
        return [octet(rng) for _ in range(4)]
    if m == "get_macaddress":
        return [octet(rng) for _ in range(6)]
    if m == "get_model":
        return [rng.choice(["2", "4", "6", "7", "11", "13", "23", "200", "0", "1", "3", "5", "8", "9", "10", "12", "14", "44", "45", "51", "99", "201", str(n(300))])]
    if m in ("get_firmware", "get_kernel_version", "get_distribution_version"):
        return [str(rng.choice([0, 1, 5, 10, n(100), n(1000)])) for _ in range(3)]
    if m == "get_uptime":
        return [pad(rng, rng.choice([0, 1, 30, 365, n(5000)])), pad(rng, n(24)), pad(rng, n(60)), pad(rng, n(60))]
    return [energy(rng)]


class Asker:
    def __init__(self, rec):
        self.rec, self.rng = rec, rec.rng
        self.bench = Bench()

    def ask(self, cls, where, m, a, answers, kw=None, py=None, k="query", extra=None):
        """answers: for each frame that the call sends, the responses before the ACK."""
        b = self.bench
        t = b.call(cls, where, m, arguments(m, a) if py is None else py, kw)
        for texts in answers:
            b.frames()
            b.reply("".join(texts) + "*#*1##")
        st = state(t)
        r = {"k": k, "cls": cls, "m": m, "w": codes(where), "a": list(a), "now": [], "resp": [codes(x) for texts in answers for x in texts], "st": st,
             "vals": [[canon(v) for v in row] for row in t.result()] if st == "ok" else []}
        r.update(extra or {})
        self.rec.emit(r)
        if not t.done() or st == "timeout":
            b.close()
            self.bench = Bench()
        return r


def params(rng, m, a):
    return "".join("#" + str(x) for x in ([a[1], a[0]] if m == "get_energy_unit_per_month" else a))


DIMS = {"temporization_request": 2, "request_working_time_lamp": 8, "request_current_brightness_speed": 1, "request_current_hsv": 12,
        "request_current_white_temperature": 14, "get_active_power": 113, "get_energy_unit_totalizer": 51, "get_energy_unit_per_month": 52,
        "get_partial_totalizer_current_month": 53, "get_partial_totalizer_current_day": 54, "get_actuators_info": 71, "get_totalizers": 72,
        "get_differential_current_level": 73, "get_time": 0, "get_date": 1, "get_ip": 10, "get_netmask": 11, "get_macaddress": 12, "get_model": 15,
        "get_firmware": 16, "get_uptime": 19, "get_datetime": 22, "get_kernel_version": 23, "get_distribution_version": 24}
# a light that is dimmed, timed or blinking is on
LIT = [str(w) for w in range(32) if w != 19] + ["1#5", "0#3", "30#10#5"]
WHATS = {"Light": LIT, "Dimmer": ["0", "2", "3", "4", "5", "6", "7", "8", "9", "10"], "Automation": ["0", "1", "2"]}


def response(rng, cls, m, where, a=()):
    who = cat.WHO[cls]
    if m == "get_status":
        return "*%d*%s*%s##" % (who, rng.choice(WHATS[cls]), where)
    return "*#%d*%s*%d%s*%s##" % (who, where, DIMS[m], params(rng, m, a), "*".join(values(rng, m)))


def c19(rec):
    rng = rec.rng
    q = Asker(rec)
    each = 150 if not rec.thorough else 3000
    for cls in ("Light", "Dimmer", "Automation", "EnergyManagement", "StopGo", "Gateway"):
        for m in cat.QUERIES[cls]:
            if m == "request_status":
                continue
            many = m == "get_status" or m.startswith("request") or m == "temporization_request"
            for _ in range(each):
                w = rng.choice(cat.ADDRESSES[cls])
                n = rng.choice([1, 1, 2, 3, 12]) if many else rng.choice([1, 1, 1, 2])
                q.ask(cls, w, m, [], [[response(rng, cls, m, rng.choice(cat.ADDRESSES[cls])) for _ in range(n)]])
            if many:
                q.ask(cls, "11", m, [], [[]])
    for cls in ("EnergyManagement", "StopGo"):
        for _ in range(each):
            w = rng.choice(cat.ADDRESSES[cls])
            a = [rng.choice([1, 2])]
            q.ask(cls, w, "get_totalizers", a, [[response(rng, cls, "get_totalizers", w, a)]])
            a = [rng.randrange(1, 13), rng.randrange(100)]
            q.ask(cls, w, "get_energy_unit_per_month", a, [[response(rng, cls, "get_energy_unit_per_month", w, a)]])
    # all the statuses, all the levels
    for cls, whats in WHATS.items():
        for x in whats:
            for w in cat.ADDRESSES[cls]:
                q.ask(cls, "0", "get_status", [], [["*%d*%s*%s##" % (cat.WHO[cls], x, w)]])
    for b in range(256):
        q.ask("Dimmer", "11", "request_current_brightness_speed", [], [["*#1*11*1*%d*%d##" % (100 + b % 101, b)]])
        q.ask("Gateway", "", "get_macaddress", [], [["*#13**12*%d*%d*%d*%d*%d*%d##" % (b, 255 - b, b ^ 85, (b * 7) % 256, b // 2, b // 16)]])
        q.ask("Gateway", "", "get_model", [], [["*#13**15*%d##" % b]])
    for h in range(360):
        q.ask("Dimmer", "11", "request_current_hsv", [], [["*#1*11*12*%d*%d*%d##" % (h, h % 101, (h * 3) % 101)]])
    for flags in range(64):
        bits = [str(flags >> i & 1) for i in range(5)] + [str(1 + (flags >> 5))]
        q.ask("EnergyManagement", "71#0", "get_actuators_info", [], [["*#18*71#0*71*%s##" % "*".join(bits)]])
    for z in range(24):
        for s in "01":
            q.ask("Gateway", "", "get_time", [], [["*#13**0*%02d*%02d*%02d*%s%02d##" % (z, 2 * z, 59 - z, s, z)]])
            q.ask("Gateway", "", "get_datetime", [], [["*#13**22*%02d*%02d*%02d*%s%02d*03*%02d*%02d*2024##" % (z, 2 * z, 59 - z, s, z, z + 1, 1 + z % 12)]])
    # the Stop&Go masks and the single flags
    masks = range(8192) if rec.thorough else sorted({1 << i for i in range(13)} | {8191 ^ (1 << i) for i in range(13)} | {0, 8191} |
                                                    {rng.randrange(8192) for _ in range(600)})
    for n in masks:
        w = rng.choice(cat.STOPGO_WHERE)
        q.ask("StopGo", w, "request_status", [], [["*#18*%s*250*%s##" % (w, format(n, "013b"))]])
    for d in range(251, 264):
        for v in "01":
            q.ask("StopGo", "11", "request_status", [d], [["*#18*11*%d*%s##" % (d, v)]], py=[], kw={"dim_req": DimensionEnergy(str(d))})
            e = rng.randrange(251, 264)
            q.ask("StopGo", "11", "request_status", [d], [["*#18*11*%d*%s##" % (d, v), "*#18*11*%d*%s##" % (e, rng.choice("01"))]], py=[],
                  kw={"dim_req": DimensionEnergy(str(d))})
    # the network
    for mask in MASKS:
        for _ in range(6):
            ip = "*".join(str(rng.randrange(256)) for _ in range(4))
            q.ask("Gateway", "", "get_netinfo", [], [["*#13**10*%s##" % ip], ["*#13**11*%s##" % mask]])


def c20(rec):
    rng = rec.rng
    q = Asker(rec)

    def write(m, a):
        b = q.bench
        t = b.call("Gateway", "", m, arguments(m, a))
        frames = b.frames()
        if not t.done():
            b.reply("*#*1##")
        st = state(t)
        r = {"k": "clock", "cls": "Gateway", "m": m, "w": [], "a": a, "now": [], "frames": [codes(f) for f in frames], "st": st, "vals": []}
        if st == "ok" and len(frames) == 1 and frames[0].startswith("*#13**#"):
            # the gateway now shows what was written
            t = b.call("Gateway", "", m.replace("set", "get"), [])
            b.frames()
            b.reply(frames[0].replace("*#13**#", "*#13**") + "*#*1##")
            r["st"] = state(t)
            r["vals"] = [[canon(v) for v in row] for row in t.result()] if state(t) == "ok" else []
        rec.emit(r)
        if not t.done() or st == "timeout" or len(frames) > 1:
            b.close()
            q.bench = Bench()

    def day(d):
        return [d.day, d.month, d.year]
    for z in [NONE, *range(-23, 24)]:
        for h in range(24):
            m, s = rng.choice([(0, 0), (59, 59), (rng.randrange(60), rng.randrange(60))])
            write("set_time", [h, m, s, z])
            write("set_datetime", [h, m, s, z] + day(rng.choice(DAYS)(rng)))
    for x in range(60):
        write("set_time", [rng.randrange(24), x, 59 - x, rng.randrange(-23, 24)])
    # whole years, day by day
    for y in [2023, 2024, 2000] + ([1900, 2100, 1999, 2025, 1000, 9999] if rec.thorough else []):
        d = datetime.date(y, 1, 1)
        while d.year == y:
            write("set_date", day(d))
            if d.toordinal() == datetime.date.max.toordinal():
                break
            d += datetime.timedelta(days=1)
    # the turn of many years
    for y in range(1990, 2062):
        for n in range(-7, 10):
            write("set_date", day(datetime.date(y, 1, 1) + datetime.timedelta(days=n)))
    for _ in range(600 if not rec.thorough else 20000):
        write("set_date", day(rng.choice(DAYS)(rng)))
        write("set_datetime", [rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(-23, 24)] + day(rng.choice(DAYS)(rng)))
