"""A gateway in the same process, for demonstrations: a socket pair in place of the TCP connection."""
import asyncio
import socket


class Loop(asyncio.SelectorEventLoop):
    """create_connection gives a socket pair; the other ends are in .conns."""

    def __init__(self):
        super().__init__()
        self.conns = []

    async def create_connection(self, factory, host=None, port=None, **kw):
        if kw.get("sock") is not None:
            return await super().create_connection(factory, **kw)
        mine, other = socket.socketpair()
        mine.setblocking(False)
        other.setblocking(False)
        self.conns.append(other)
        return await super().create_connection(factory, sock=mine)


async def spin(n=50):
    for _ in range(n):
        await asyncio.sleep(0)


def recv(sock):
    out = b""
    while True:
        try:
            d = sock.recv(65536)
        except BlockingIOError:
            return out.decode()
        if not d:
            return out.decode()
        out += d


def run(main):
    """main(loop) is a coroutine function."""
    loop = Loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(asyncio.wait_for(main(loop), 100))
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()


async def connect(loop, client):
    """Starts a client with a gateway that asks for no password; returns the gateway's socket."""
    t = asyncio.ensure_future(client.start())
    await spin()
    c = loop.conns[-1]
    c.sendall(b"*#*1##")
    await spin()
    recv(c)
    c.sendall(b"*#*1##")
    await t
    return c
