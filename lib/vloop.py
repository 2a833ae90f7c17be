"""Virtual time: an asyncio loop whose clock only moves when nothing is runnable, and a wall clock
(see vt.c, LD_PRELOADed) that moves in step with it."""
import asyncio, ctypes, selectors, datetime, os

class Deadlock(RuntimeError):
    """Nothing runnable and no timer pending: the workload would wait forever."""

_lib = None
def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["VT_LIB"])
        _lib.vt_set.argtypes = [ctypes.c_int64]
        _lib.vt_advance.argtypes = [ctypes.c_int64]
        _lib.vt_get.restype = ctypes.c_int64
    return _lib

EPOCH = datetime.datetime(2027, 3, 10, 6, 0, 0, tzinfo=datetime.timezone.utc)

def set_wall(dt):
    d = dt - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    lib().vt_set(((d.days * 86400 + d.seconds) * 1000000 + d.microseconds) * 1000)

def release_wall():
    lib().vt_set(-1)

def self_test():
    set_wall(EPOCH)
    a = datetime.datetime.now(datetime.timezone.utc)
    lib().vt_advance(1_500_000_000)
    b = datetime.datetime.now(datetime.timezone.utc)
    import time
    ok = a == EPOCH and b - a == datetime.timedelta(seconds=1.5) and int(time.time()) == int(b.timestamp())
    release_wall()
    if not ok:
        raise RuntimeError("wall-clock shim is not effective")

class _VSelector(selectors.DefaultSelector):
    loop = None
    def select(self, timeout=None):
        ev = super().select(0)
        if ev:
            return ev
        if timeout is None:
            raise Deadlock("no runnable task and no timer")
        if timeout > 0:
            self.loop._vadvance(timeout)
        return ev

class VLoop(asyncio.SelectorEventLoop):
    """Virtual-time loop. time() is virtual; wall clock follows."""
    def __init__(self, start=EPOCH):
        self._vns = 0
        sel = _VSelector()
        super().__init__(sel)
        sel.loop = self
        self._clock_resolution = 1e-6
        set_wall(start)
        self.problems = []          # what the loop's exception handler saw
        self.set_exception_handler(self._on_problem)
    def time(self):
        return self._vns / 1e9
    def _vadvance(self, seconds):
        ns = int(round(seconds * 1e9)) or 1
        self._vns += ns
        lib().vt_advance(ns)
    def _on_problem(self, loop, ctx):
        exc = ctx.get("exception")
        self.problems.append(f"{ctx.get('message')}: {type(exc).__name__ if exc else ''} {exc}")

def run(coro_fn, start=EPOCH):
    """Run coro_fn(loop) to completion on a fresh virtual loop; returns (result, loop.problems)."""
    loop = VLoop(start)
    asyncio.set_event_loop(loop)
    try:
        res = loop.run_until_complete(coro_fn(loop))
        # let cancelled leftovers finish
        pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in pend:
            t.cancel()
        if pend:
            loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        import gc
        gc.collect(0)
        return res, list(loop.problems)
    finally:
        try:
            loop.close()
        finally:
            asyncio.set_event_loop(None)
            release_wall()
