"""P08: event status and order follow the clock and the priorities."""
import vhist
ID = "P08"
CASES = {"quick": 800, "thorough": 12000}
RULE = ("each case is a random history of additions (convenience and full form), cancellations, polls, event requests, right and wrong responses and time steps for 2-4 VENs "
        "that share event ids, half of them with overlapping requests and slow callbacks, in virtual time; an offline checker over the recorded log"
        " compares each status with the event times and the order with status, priority and start; signature = the sequence of answers")
ASSUME = ["operations that overlap in time may take effect in either order"]
REQUIRED = ["status_far", "status_near", "status_active", "status_completed", "status_cancelled", "orderings_checked", "orderings_with_several_active"]
def case(c):
    conc = c.rng.random() < .5
    async def body(loop):
        h = vhist.Hist(c, c.rng.choice([2, 3, 4]), conc=conc, failing=.2, ext_lookup=conc and c.rng.random() < .5, idkinds=c.rng.choice(["p", "pn", "pnmu"]),
                       w=dict(add=4, raw=6, cancel=.7, poll=3, request=9, respond=1, wrong=.2, sleep=7))
        await h.go(c.rng.choice([15, 40, 80]))
        return h
    h = c.run(body)
    vhist.check_status(h)
    c.sig(vhist.shape(h))
    c.sample({"answers": vhist.shape(h)[:12], "conc": conc})
