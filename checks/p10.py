"""P10: the answer to an event reaches its callback exactly once."""
import vhist
ID = "P10"
CASES = {"quick": 800, "thorough": 12000}
RULE = ("each case is a random history of additions (convenience and full form), cancellations, polls, event requests, right and wrong responses and time steps for 2-4 VENs "
        "that share event ids, half of them with overlapping requests and slow callbacks, in virtual time; an offline checker over the recorded log"
        " matches responses and callback runs one to one and predicts the code of each answer; signature = the sequence of answers")
ASSUME = ["operations that overlap in time may take effect in either order"]
REQUIRED = ["callbacks_due", "callback_runs", "unknown_event_responses", "valid_responses"]
def case(c):
    conc = c.rng.random() < .5
    async def body(loop):
        h = vhist.Hist(c, c.rng.choice([2, 3, 4]), conc=conc, failing=.2, ext_lookup=conc and c.rng.random() < .5, idkinds=c.rng.choice(["p", "pn", "pnmu"]),
                       w=dict(add=5, raw=2, cancel=2, poll=2, request=3, respond=10, wrong=5, sleep=3))
        await h.go(c.rng.choice([15, 40, 80]))
        return h
    h = c.run(body)
    vhist.check_callbacks(h)
    c.sig(vhist.shape(h))
    c.sample({"answers": vhist.shape(h)[:12], "conc": conc})
