"""In-memory HTTP between real openleadr clients and the real openleadr server application.
Import this module before openleadr: it replaces aiohttp.ClientSession by FakeSession."""
import asyncio, random, sys, os
import aiohttp
from aiohttp import web, client_exceptions
from aiohttp.streams import StreamReader
from aiohttp.test_utils import make_mocked_request
from unittest import mock

RealClientSession = aiohttp.ClientSession
PATH = "/OpenADR2/Simple/2.0b"

class Exchange:
    __slots__ = ("n", "host", "service", "req", "res", "status", "t0", "t_in", "t_out", "t1", "fault", "client", "headers")
    def __init__(self, **kw):
        self.res = self.status = self.t_in = self.t_out = self.t1 = self.fault = None
        for k, v in kw.items():
            setattr(self, k, v)
    def __repr__(self):
        return f"<{self.n} {self.service} st={self.status} fault={self.fault} t={self.t0}>"

class Net:
    """Routes posts by host name to registered endpoints; records every exchange; injects faults."""
    current = None
    def __init__(self):
        self.hosts = {}
        self.log = []
        self.faulter = None      # async fn(exchange) -> fault spec or None
        self.delayer = None      # fn(exchange, phase) -> seconds
        Net.current = self
    def add_server(self, host, server, peer_cert_der=None):
        self.hosts[host] = ServerEndpoint(server)
    def add_fn(self, host, fn):
        """fn(service, body bytes, exchange) -> (status, bytes) (may be async)."""
        self.hosts[host] = FnEndpoint(fn)

class FnEndpoint:
    def __init__(self, fn):
        self.fn = fn
    async def serve(self, ex, peer):
        r = self.fn(ex.service, ex.req, ex)
        if asyncio.iscoroutine(r):
            r = await r
        return r

async def post_app(app, path, body, headers=None, tls=False, peer_der=None, chunks=None):
    """Drive the real aiohttp application with one POST. Returns (status, body, headers)."""
    loop = asyncio.get_running_loop()
    proto = mock.Mock()
    proto._reading_paused = False
    proto.ssl_context = True if tls else None
    stream = StreamReader(proto, limit=2 ** 24, loop=loop)
    if body:
        stream.feed_data(body)
    stream.feed_eof()
    hdrs = {"Content-Type": "application/xml", "Host": "vtn"} if headers is None else dict(headers)
    transport = mock.Mock()
    class _Ssl:
        def getpeercert(self, binary_form=False):
            return peer_der
    extra = {"peername": ("127.0.0.1", 1)}
    if tls:
        extra["sslcontext"] = True
        extra["ssl_object"] = _Ssl()
    transport.get_extra_info = lambda key, default=None: extra.get(key, default)
    transport.is_closing = lambda: False
    if not app.frozen:
        app.freeze()
    req = make_mocked_request("POST", path, hdrs, payload=stream, transport=transport,
                              client_max_size=getattr(app, "_client_max_size", 1024 ** 2), app=app,
                              protocol=proto, sslcontext=True if tls else None)
    try:
        resp = await app._handle(req)
    except web.HTTPException as e:
        return e.status, (e.body or b""), dict(e.headers)
    except asyncio.CancelledError:
        raise
    except Exception as e:
        return 599, f"{type(e).__name__}: {e}".encode(), {}
    b = resp.body
    if b is None:
        b = b""
    return resp.status, bytes(b), dict(resp.headers)

class ServerEndpoint:
    def __init__(self, server):
        self.server = server
    async def serve(self, ex, peer):
        pre = self.server.http_path_prefix
        st, body, h = await post_app(self.server.app, f"{pre}/{ex.service}", ex.req, headers=ex.headers,
                                     tls=peer is not None, peer_der=peer)
        ex.headers = h
        return st, body

class FakeResponse:
    def __init__(self, status, body, headers=None, read_exc=None):
        self.status = status
        self._body = body
        self.headers = headers or {"Content-Type": "application/xml"}
        self._exc = read_exc
        self.content_type = "application/xml"
        self.ok = status < 400
        self.reason = "x"
    async def read(self):
        await asyncio.sleep(0)
        if self._exc:
            raise self._exc
        return self._body
    async def text(self, encoding="utf-8"):
        return (await self.read()).decode(encoding)
    def release(self):
        pass
    def close(self):
        pass
    def raise_for_status(self):
        if self.status >= 400:
            raise client_exceptions.ClientResponseError(None, (), status=self.status)
    async def __aenter__(self):
        return self
    async def __aexit__(self, *a):
        return False

class _Req:
    def __init__(self, coro):
        self._coro = coro
    def __await__(self):
        return self._coro.__await__()
    async def __aenter__(self):
        return await self._coro
    async def __aexit__(self, *a):
        return False

class FakeSession:
    peer_ders = {}     # session tag -> DER (simulated TLS client certificate)
    def __init__(self, connector=None, headers=None, timeout=None, **kw):
        self.net = Net.current
        self.headers = dict(headers or {})
        self.closed = False
        self.connector = connector
        self.tag = None
        self.peer = None
    def post(self, url, data=None, headers=None, **kw):
        return _Req(self._post(url, data, headers))
    async def request(self, method, url, data=None, headers=None, **kw):
        return await self._post(url, data, headers)
    async def close(self):
        self.closed = True
    async def __aenter__(self):
        return self
    async def __aexit__(self, *a):
        await self.close()
    async def _post(self, url, data, headers):
        net = self.net
        loop = asyncio.get_running_loop()
        url = str(url)
        host = url.split("://", 1)[1].split("/", 1)[0]
        service = url.rstrip("/").rsplit("/", 1)[1]
        body = data.encode("utf-8") if isinstance(data, str) else bytes(data)
        hd = dict(self.headers); hd.update(headers or {})
        ex = Exchange(n=len(net.log), host=host, service=service, req=body, t0=loop.time(), client=self, headers=hd)
        net.log.append(ex)
        if self.closed:
            ex.fault = "closed"
            raise RuntimeError("Session is closed")
        fault = await net.faulter(ex) if net.faulter else None
        ex.fault = fault[0] if fault else None
        if net.delayer:
            await asyncio.sleep(net.delayer(ex, "request"))
        else:
            await asyncio.sleep(0)
        def alive():
            if self.closed:          # as in aiohttp: closing the session breaks off its connections
                ex.t1 = loop.time()
                raise client_exceptions.ServerDisconnectedError()
        alive()
        ep = net.hosts.get(host)
        if ep is None or (fault and fault[0] == "refuse"):
            key = mock.Mock(); key.host = host; key.port = 80; key.ssl = None; key.is_ssl = False
            ex.t1 = loop.time()
            raise client_exceptions.ClientConnectorError(key, OSError(111, "refused"))
        if fault and fault[0] == "drop_request":
            await asyncio.sleep(10)
            ex.t1 = loop.time()
            raise client_exceptions.SocketTimeoutError("timeout")
        ex.t_in = loop.time()
        if fault and fault[0] == "replace":          # answer never came from the VTN
            status, body = fault[1], fault[2]
        else:
            if fault and fault[0] == "duplicate":
                await ep.serve(Exchange(n=-1, host=host, service=service, req=ex.req, t0=ex.t0, client=self, headers=dict(hd)), self.peer)
            status, body = await ep.serve(ex, self.peer)
        ex.t_out = loop.time()
        alive()
        ex.status, ex.res = status, body
        if net.delayer:
            await asyncio.sleep(net.delayer(ex, "response"))
        else:
            await asyncio.sleep(0)
        alive()
        ex.t1 = loop.time()
        if fault:
            k = fault[0]
            if k == "drop_response":
                await asyncio.sleep(10)
                raise client_exceptions.SocketTimeoutError("timeout")
            if k == "disconnect":
                raise client_exceptions.ServerDisconnectedError()
            if k == "read_error":
                return FakeResponse(status, body, read_exc=client_exceptions.ClientPayloadError("truncated"))
            if k == "mutate":
                status, body = fault[1](status, body)
        return FakeResponse(status, body)

def install():
    aiohttp.ClientSession = FakeSession
    aiohttp.client.ClientSession = FakeSession

def uninstall():
    aiohttp.ClientSession = RealClientSession
    aiohttp.client.ClientSession = RealClientSession
