"""Building blocks: VTN servers and VEN clients on an in-memory network in virtual time, raw posting, log capture."""
import asyncio, logging, itertools
import fabric, oadr, wire
from fabric import Net, post_app

class Ans:
    """What a peer got back."""
    def __init__(self, status, body, headers=None):
        self.status, self.body, self.headers = status, body, headers or {}
        self.type = self.el = None
        self.bad = None
        if status == 200 and body:
            self.bad = wire.invalid(body)
            if self.bad is None:
                self.type, self.el = wire.message(body)
    @property
    def response(self):
        return wire.response(self.el) if self.el is not None else None
    @property
    def code(self):
        r = self.response
        return r["code"] if r else None
    @property
    def events(self):
        return wire.events(self.body) if self.type == "oadrDistributeEvent" else []
    def __repr__(self):
        return f"<{self.status} {self.type} code={self.code if self.el is not None else None} {'' if self.type else self.body[:200]}>"

def server(net=None, host="vtn", vtn_id="VTN_1", **kw):
    from openleadr import OpenADRServer
    kw.setdefault("show_fingerprint", False)
    s = OpenADRServer(vtn_id=vtn_id, **kw)
    if net is not None:
        net.add_server(host, s)
    return s

def client(host="vtn", name="ven", **kw):
    from openleadr import OpenADRClient
    kw.setdefault("show_fingerprint", False)
    return OpenADRClient(ven_name=name, vtn_url=f"http://{host}{fabric.PATH}", **kw)

async def post(srv, service, el, headers=None, peer=None, tls=None, chunks=None):
    body = oadr.msg(el) if not isinstance(el, (bytes, str)) else (el.encode() if isinstance(el, str) else el)
    st, b, h = await post_app(srv.app, f"{srv.http_path_prefix}/{service}", body, headers=headers,
                              tls=(peer is not None) if tls is None else tls, peer_der=peer)
    return Ans(st, b, h)

SERVICE = {"oadrPoll": "OadrPoll", "oadrRequestEvent": "EiEvent", "oadrCreatedEvent": "EiEvent", "oadrQueryRegistration": "EiRegisterParty",
           "oadrCreatePartyRegistration": "EiRegisterParty", "oadrCancelPartyRegistration": "EiRegisterParty",
           "oadrCanceledPartyRegistration": "EiRegisterParty", "oadrRegisterReport": "EiReport", "oadrUpdateReport": "EiReport",
           "oadrCreatedReport": "EiReport", "oadrCanceledReport": "EiReport", "oadrRegisteredReport": "EiReport", "oadrResponse": "EiRegisterParty"}

class Logs(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.lines = []
        logging.getLogger("openleadr").addHandler(self)
    def emit(self, rec):
        if len(self.lines) < 200:
            self.lines.append(f"{rec.levelname}: {rec.getMessage()[:300]}")
    def done(self):
        logging.getLogger("openleadr").removeHandler(self)
