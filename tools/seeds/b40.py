PROPERTY = 'C18'
NEEDS = 'a month that is still to come in the current year, with the year not given'
BREAKS = 'the request is for the month of last year, not of the current year'
EDITS = [('pyown/items/energy/energy.py', '''            year = datetime.now().year % 100
''', '''            now = datetime.now()
            year = now.year % 100 if month <= now.month else now.year % 100 - 1
''')]
DEMO = '''
import sys, asyncio, datetime
from gw import run, spin, recv, connect
import pyown.items.energy
from pyown.client import Client, SessionType
from pyown.items import EnergyManagement

class Then(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2027, 1, 15, 12, 0, 0)
energy = sys.modules["pyown.items.energy.energy"]
if hasattr(energy, "datetime"):
    energy.datetime = Then

async def main(loop):
    c = Client("h", 1, "12345", SessionType.CommandSession, loop=loop)
    g = await connect(loop, c)
    await spin(); recv(g)
    t = asyncio.ensure_future(EnergyManagement(c, "51").get_energy_unit_per_month(month=12))
    await spin()
    sent = recv(g)
    t.cancel()
    return 0 if sent == "*#18*51*52#27#12##" else 1
sys.exit(run(main))
'''
