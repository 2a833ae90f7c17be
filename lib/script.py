"""A scripted VTN for real clients: records every message it receives and answers from a script."""
import asyncio
from datetime import datetime, timedelta, timezone
import oadr, wire, fabric
from fabric import Net
UTC = timezone.utc

class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)
    def __repr__(self):
        return f"<{self.n} {self.at:%H:%M:%S.%f} {self.service} {self.type}>"

class ScriptVTN:
    def __init__(self, net, host="vtn", vtn_id="VTN_1", freq=timedelta(seconds=10), ven_id="VEN_A", reg="REG_A"):
        self.net, self.vtn_id, self.freq, self.ven_id, self.reg = net, vtn_id, freq, ven_id, reg
        self.log = []                  # every message received
        self.queue = []                # messages for the next polls: elements or functions (rec -> element)
        self.override = {}             # message type -> function (rec) -> element / bytes / (status, bytes) / None (= default)
        self.initial_events = []       # what an oadrRequestEvent gets
        self.invalid = []
        self.n = 0
        net.add_fn(host, self.serve)
    def rid(self):
        self.n += 1
        return f"vtnreq-{self.n}"
    async def serve(self, service, body, ex):
        why = wire.invalid(body)
        if why:
            self.invalid.append((service, why, body))
            return 400, b"invalid"
        t, el = wire.message(body)
        r = Rec(n=len(self.log), at=datetime.now(UTC), service=service, type=t, el=el, body=body, rid=wire.request_id(el), ven=wire.text(el, "venID"), ex=ex)
        if r.ven is None:
            for w in ("eiRequestEvent", "eiCreatedEvent"):
                if wire.first(el, w) is not None:
                    r.ven = wire.text(el, w, "venID")
        self.log.append(r)
        a = self.override[t](r) if t in self.override else None
        if asyncio.iscoroutine(a):
            a = await a
        if a is None:
            a = self.default(r)
        r.answer = a
        if isinstance(a, tuple):
            return a
        return 200, a if isinstance(a, bytes) else oadr.msg(a)
    def default(self, r):
        t = r.type
        if t == "oadrQueryRegistration":
            return oadr.created_party_registration(r.rid, None, None, self.vtn_id, self.freq)
        if t == "oadrCreatePartyRegistration":
            return oadr.created_party_registration(r.rid, self.ven_id, self.reg, self.vtn_id, self.freq)
        if t == "oadrRegisterReport":
            return oadr.registered_report(r.rid, [], self.ven_id)
        if t == "oadrRequestEvent":
            return oadr.distribute_event(self.rid(), self.initial_events, self.vtn_id)
        if t == "oadrPoll":
            if self.queue:
                m = self.queue.pop(0)
                return m(r) if callable(m) else m
            return oadr.oadr_response(200, "0", self.ven_id)
        if t == "oadrUpdateReport":
            return oadr.updated_report(r.rid, self.ven_id)
        if t == "oadrCancelPartyRegistration":
            return oadr.canceled_party_registration(200, r.rid, wire.text(r.el, "registrationID"), self.ven_id)
        if t == "oadrCreateOpt":
            return oadr.created_opt(r.rid, wire.text(r.el, "optID"))
        if t == "oadrCancelOpt":
            return oadr.canceled_opt(r.rid, wire.text(r.el, "optID"))
        return oadr.oadr_response(200, r.rid or "0", self.ven_id)
    def of(self, *types):
        return [r for r in self.log if r.type in types]

def job_errors(client, sink):
    """Unhandled errors in the client's scheduled jobs."""
    from apscheduler.events import EVENT_JOB_ERROR
    client.scheduler.add_listener(lambda e: sink.append(f"{type(e.exception).__name__}: {e.exception}\n{(e.traceback or '')[-900:]}"), EVENT_JOB_ERROR)
