"""P07: no event change is ever lost between polls."""
import vhist
ID = "P07"
CASES = {"quick": 800, "thorough": 12000}
RULE = ("each case is a random history of additions (convenience and full form), cancellations, polls, event requests, right and wrong responses and time steps for 2-4 VENs "
        "that share event ids, half of them with overlapping requests and slow callbacks, in virtual time; an offline checker over the recorded log"
        "requires every change in the first poll begun after it and empty answers to polls without a change; signature = the sequence of answers")
ASSUME = ["operations that overlap in time may take effect in either order"]
REQUIRED = ["changes_followed_up", "idle_polls", "polls", "cancels"]
def case(c):
    conc = c.rng.random() < .5
    async def body(loop):
        h = vhist.Hist(c, c.rng.choice([2, 3, 4]), conc=conc, failing=.2, ext_lookup=conc and c.rng.random() < .5, idkinds=c.rng.choice(["p", "pn", "pnmu"]),
                       w=dict(add=5, raw=2, cancel=3, poll=10, request=2, respond=3, wrong=1, sleep=3))
        await h.go(c.rng.choice([15, 40, 80]))
        return h
    h = c.run(body)
    vhist.check_polls(h)
    c.sig(vhist.shape(h))
    c.sample({"answers": vhist.shape(h)[:12], "conc": conc})
