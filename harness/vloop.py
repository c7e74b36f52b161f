"""An event loop with virtual time and an in-process gateway.

Time only moves when the driver says so, so every timeout of the library is exercised
exactly and without waiting.  Connections are real sockets and real asyncio transports
(a socket pair per connection), the driver holds the gateway's end.
"""
import asyncio
import selectors
import socket


class _Selector:
    """Polls the real selector; when nothing is ready it moves virtual time or stops the loop."""

    def __init__(self):
        self.inner = selectors.DefaultSelector()
        self.loop = None

    def select(self, timeout=None):
        events = self.inner.select(0)
        if events or (timeout is not None and timeout <= 0):
            return events
        loop = self.loop
        target = loop._target
        if timeout is not None and target is not None and loop._now + timeout <= target + 1e-9:
            loop._now += timeout
        else:
            if target is not None:
                loop._now = max(loop._now, target)
            loop.stop()
        return []

    def __getattr__(self, name):
        return getattr(self.inner, name)


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, gateway=None):
        self._now = 1000.0
        self._target = None
        sel = _Selector()
        super().__init__(sel)
        sel.loop = self
        self.gateway = gateway
        self.connections = []
        self.uncaught = []

    def time(self):
        return self._now

    def settle(self):
        """Runs everything that can run without time passing."""
        self._target = None
        self.run_forever()

    def advance(self, seconds):
        """Lets virtual time pass, running every timer on its way."""
        self._target = self._now + seconds
        self.run_forever()
        self._target = None
        self.settle()

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        if kw.get("sock") is not None:
            return await super().create_connection(protocol_factory, **kw)
        conn = Connection(host, port)
        if self.gateway is not None:
            try:
                self.gateway(conn)
            except OSError:
                conn.mine.close()
                conn.sock.close()
                raise
        self.connections.append(conn)
        return await super().create_connection(protocol_factory, sock=conn.mine)

    def task(self, coro):
        return self.create_task(coro)

    def finish(self):
        """Cancels what is left and closes everything."""
        for c in self.connections:
            c.close()
        for _ in range(3):
            tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
            for t in tasks:
                t.cancel()
            self._target = None
            self.run_forever()
            if not tasks:
                break
        try:
            self.run_until_complete(self.shutdown_asyncgens())
        except Exception:
            pass
        self.close()


class Connection:
    """The gateway's end of a connection."""

    def __init__(self, host, port):
        self.host, self.port = host, port
        self.mine, self.sock = socket.socketpair()
        self.mine.setblocking(False)
        self.sock.setblocking(False)
        self.received = b""
        self.eof = False
        self.open = True

    def send(self, data):
        """Sends bytes (or text); a closed peer is ignored, as TCP would."""
        if isinstance(data, str):
            data = data.encode("latin-1")
        try:
            self.sock.sendall(data)
            return True
        except OSError:
            return False

    def poll(self):
        """Everything received since the last poll."""
        got = b""
        while self.open:
            try:
                d = self.sock.recv(65536)
            except BlockingIOError:
                break
            except OSError:
                self.eof = True
                break
            if not d:
                self.eof = True
                break
            got += d
        self.received += got
        return got

    def close(self):
        if self.open:
            self.open = False
            self.sock.close()


def split_frames(data):
    """The frames in what a client sent ('?' marks trailing garbage)."""
    s = data.decode("latin-1")
    out = []
    while s:
        i = s.find("##")
        if i < 0:
            out.append("?" + s)
            break
        while s[i + 2:i + 3] == "#":
            i += 1
        out.append(s[:i + 2])
        s = s[i + 2:]
    return out
