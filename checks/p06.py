"""P06: a VEN is handed exactly its own outstanding events."""
import vhist
ID = "P06"
CASES = {"quick": 800, "thorough": 12000}
RULE = ("each case is a random history of additions (convenience and full form), cancellations, polls, event requests, right and wrong responses and time steps for 2-4 VENs "
        "that share event ids, half of them with overlapping requests and slow callbacks, in virtual time; an offline checker over the recorded log decides which events must, "
        "may and may not be in each answer and how often each delivery callback ran; signature = the sequence of answers")
ASSUME = ["operations that overlap in time may take effect in either order"]
REQUIRED = ["events_added", "handed_out_checked", "must_be_included", "delivery_callbacks", "completed_handed_out", "cancels"]
def case(c):
    conc = c.rng.random() < .5
    async def body(loop):
        h = vhist.Hist(c, c.rng.choice([2, 3, 4]), conc=conc, failing=.2, ext_lookup=conc and c.rng.random() < .5, idkinds=c.rng.choice(["p", "pn", "pnmu"]))
        await h.go(c.rng.choice([15, 40, 80]))
        return h
    h = c.run(body)
    vhist.check_outstanding(h)
    c.sig(vhist.shape(h))
    c.sample({"answers": vhist.shape(h)[:12], "conc": conc})
