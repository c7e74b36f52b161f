"""The items and their methods as the drivers call them, and a client to call them on."""
import asyncio
import datetime
import ipaddress
import itertools

from pyown.client import Client, SessionType
from pyown.exceptions import ResponseError
from pyown.items import EnergyManagement, Gateway, Light
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy import ActuatorStatus, StopGo, StopGoStatus
from pyown.items.energy.enums import DimensionEnergy
from pyown.items.gateway.gateway import GatewayModel
from pyown.items.lighting import Dimmer
from pyown.messages import BaseMessage
from pyown.tags import What, Where

from .core import codes
from .vloop import VLoop, split_frames

NONE = -999999
CLASSES = {"Light": Light, "Dimmer": Dimmer, "Automation": Automation, "Camera": Camera,
           "EnergyManagement": EnergyManagement, "StopGo": StopGo, "Gateway": Gateway}
WHO = {"Light": 1, "Dimmer": 1, "Automation": 2, "Camera": 7, "EnergyManagement": 18, "StopGo": 18, "Gateway": 13}

# methods without arguments
BASE_LIGHT = ["turn_on", "turn_off", "turn_on_1_min", "turn_on_2_min", "turn_on_3_min", "turn_on_4_min", "turn_on_5_min", "turn_on_15_min",
              "turn_on_0_5_sec"]
LIGHT = BASE_LIGHT + ["blink_%d_%d_sec" % (n // 2, 5 * (n % 2)) for n in range(1, 11)]
DIMMER = BASE_LIGHT + ["set_%d0_percent" % n for n in range(2, 11)]
AUTOMATION = ["stop", "up", "down"]
CAMERA_PLAIN = ["free_resources", "zoom_in", "zoom_out"] + [p + x for x in ("x_coordinate", "y_coordinate", "luminosity", "contrast", "color", "quality")
                                                           for p in ("increase_", "decrease_")]
ENERGY = ["enable_actuator", "force_actuator_off"]
STOPGO = ENERGY + ["enable_automatic_reset", "disable_automatic_reset"]
LIGHT_Q = ["get_status", "temporization_request", "request_working_time_lamp"]
DIMMER_Q = LIGHT_Q + ["request_current_brightness_speed", "request_current_hsv", "request_current_white_temperature"]
ENERGY_Q = ["get_active_power", "get_energy_unit_totalizer", "get_partial_totalizer_current_month", "get_partial_totalizer_current_day",
            "get_actuators_info", "get_differential_current_level"]
GATEWAY_Q = ["get_time", "get_date", "get_ip", "get_netmask", "get_macaddress", "get_model", "get_firmware", "get_uptime", "get_datetime",
             "get_kernel_version", "get_distribution_version"]
SIMPLE = {"Light": LIGHT, "Dimmer": DIMMER, "Automation": AUTOMATION, "Camera": ["receive_video"] + CAMERA_PLAIN,
          "EnergyManagement": ENERGY, "StopGo": STOPGO, "Gateway": []}
QUERIES = {"Light": LIGHT_Q, "Dimmer": DIMMER_Q, "Automation": ["get_status"], "Camera": [],
           "EnergyManagement": ENERGY_Q, "StopGo": ENERGY_Q + ["request_status"], "Gateway": GATEWAY_Q}

LIGHT_WHERE = ["0", "00", "1", "5", "9", "100", "11", "19", "55", "99", "0001", "0010", "0015", "1001", "1015", "0110", "0101", "0715", "0915", "#1", "#9", "#255",
               "11#4#01", "0#4#02", "1#4#15", "#7#4#03", "1011#4#01", "#4#01", "22#3", "0312"]
CAMERA_WHERE = ["4000", "4001", "4050", "4099"]
POWER_WHERE = ["51", "59", "510", "5100", "5255", "50"]
ACTUATOR_WHERE = ["71#0", "79#0", "710#0", "7255#0"]
STOPGO_WHERE = ["11", "19", "110", "1127", "10"]
ADDRESSES = {"Light": LIGHT_WHERE, "Dimmer": LIGHT_WHERE, "Automation": LIGHT_WHERE, "Camera": CAMERA_WHERE,
             "EnergyManagement": POWER_WHERE + ACTUATOR_WHERE + STOPGO_WHERE, "StopGo": STOPGO_WHERE, "Gateway": [""]}


class Zone(datetime.tzinfo):
    """A timezone of another make; without hours it has no offset of its own, but maybe one that depends on the date."""

    def __init__(self, hours=None, floating=None):
        self.offset = None if hours is None else datetime.timedelta(hours=hours)
        self.floating = floating

    def utcoffset(self, dt):
        return self.offset if dt is None or self.floating is None else datetime.timedelta(hours=self.floating)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "somewhere"


MAKES = itertools.count()
NONES = itertools.count()


def tz(hours):
    own = next(MAKES) % 3 == 1
    if hours == NONE:
        return (Zone() if next(NONES) % 2 else Zone(None, 2)) if own else None
    return Zone(hours) if own else datetime.timezone(datetime.timedelta(hours=hours))


def arguments(m, a):
    """Python arguments from the numbers of the specification."""
    if m == "set_time":
        return [datetime.time(a[0], a[1], a[2], tzinfo=tz(a[3]))]
    if m == "set_date":
        return [datetime.date(a[2], a[1], a[0])]
    if m == "set_datetime":
        return [datetime.datetime(a[6], a[5], a[4], a[0], a[1], a[2], tzinfo=tz(a[3]))]
    return [None if x == NONE else x for x in a]


def canon(v):
    """A value as the specification writes it."""
    def r(t, x):
        return {"t": t, "x": codes(x)}

    def off(o):
        return NONE if o is None else int(o.total_seconds() // 60)

    def flags(obj, names):
        out = ""
        for n in names:
            f = getattr(obj, n)
            out += "-" if f is None else "1" if f is True else "0" if f is False else "?"
        return out
    if isinstance(v, bool):
        return r("bool", int(v))
    if isinstance(v, Where):
        return r("where", v.string)
    if isinstance(v, GatewayModel):
        return r("model", v.value)
    if isinstance(v, What):
        return r("what", v.string)
    if isinstance(v, int):
        return r("int", v)
    if isinstance(v, float):
        return r("float", int(v) if v == v and abs(v) < 1e18 and v == int(v) else repr(v))
    if isinstance(v, datetime.datetime):
        return r("datetime", " ".join(str(x) for x in (v.year, v.month, v.day, v.hour, v.minute, v.second, off(v.utcoffset()))))
    if isinstance(v, datetime.date):
        return r("date", f"{v.year} {v.month} {v.day}")
    if isinstance(v, datetime.time):
        return r("time", f"{v.hour} {v.minute} {v.second} {off(v.utcoffset())}")
    if isinstance(v, datetime.timedelta):
        return r("timedelta", f"{v.days} {v.seconds}")
    if isinstance(v, ipaddress.IPv4Address):
        return r("ip", v)
    if isinstance(v, ipaddress.IPv4Network):
        return r("network", v)
    if isinstance(v, ActuatorStatus):
        return r("actuator", flags(v, ["disabled", "forcing", "threshold", "protection", "phase", "advanced"]))
    if isinstance(v, StopGoStatus):
        return r("stopgo", flags(v, ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off",
                                     "check_off", "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]))
    if isinstance(v, BaseMessage):
        return r("message", v)
    if isinstance(v, str):
        return r("str", v)
    return r("other " + type(v).__name__, repr(v)[:200])


class Bench:
    """A client with an open session and a gateway that answers when told."""

    def __init__(self, session=SessionType.CommandSession):
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        self.client = Client("gateway", 20000, "12345", session, loop=self.loop)
        t = self.loop.task(self.client.start())
        self.loop.settle()
        self.conn = self.loop.connections[0]
        for _ in range(2):
            self.conn.send("*#*1##")
            self.loop.advance(.5)
        t.result()
        self.conn.poll()
        self.items, self.turn = {}, 0

    def item(self, cls, where):
        """An item at that address: now a new one, now one that was used before, built from a text or from a tag."""
        self.turn += 1
        key = (cls, where)
        if key not in self.items or self.turn % 3 == 0:
            self.items[key] = Gateway(self.client) if cls == "Gateway" else CLASSES[cls](self.client, Where(where) if self.turn % 2 else where)
        return self.items[key]

    def call(self, cls, where, m, args, kw=None):
        """The task that runs the method to its end; its result is a list of tuples of values."""
        async def run():
            x = getattr(self.item(cls, where), m)(*args, **(kw or {}))
            if hasattr(x, "__aiter__"):
                return [v if isinstance(v, tuple) else (v,) async for v in x]
            v = await x
            return [v if isinstance(v, tuple) else (v,)]
        t = self.loop.task(run())
        self.loop.settle()
        return t

    def frames(self):
        return split_frames(self.conn.poll())

    def reply(self, text):
        self.conn.send(text)
        self.loop.settle()

    def close(self):
        self.loop.finish()


def state(task):
    if not task.done():
        return "pending"
    if task.cancelled():
        return "cancelled"
    e = task.exception()
    if e is None:
        return "ok"
    return "refused" if isinstance(e, ResponseError) else "timeout" if isinstance(e, TimeoutError) else "value" if type(e) is ValueError else \
        "other " + type(e).__name__
