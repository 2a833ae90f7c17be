"""P11: a cancelled event is announced until acknowledged, then gone."""
import vhist
ID = "P11"
CASES = {"quick": 800, "thorough": 12000}
RULE = ("each case is a random history of additions (convenience and full form), cancellations, polls, event requests, right and wrong responses and time steps for 2-4 VENs "
        "that share event ids, half of them with overlapping requests and slow callbacks, in virtual time; an offline checker over the recorded log"
        " follows the modification number, status and content of each event over all answers; signature = the sequence of answers")
ASSUME = ["operations that overlap in time may take effect in either order"]
REQUIRED = ["announced_cancelled", "announced_not_cancelled", "cancelled_must_be_included", "cancellations_acknowledged", "unknown_cancels", "changes_followed_up"]
def case(c):
    conc = c.rng.random() < .5
    async def body(loop):
        h = vhist.Hist(c, c.rng.choice([2, 3, 4]), conc=conc, failing=.2, ext_lookup=conc and c.rng.random() < .5, idkinds=c.rng.choice(["p", "pn", "pnmu"]),
                       w=dict(add=5, raw=3, cancel=6, poll=5, request=5, respond=6, wrong=2, sleep=3, cancel_bad=1))
        await h.go(c.rng.choice([15, 40, 80]))
        return h
    h = c.run(body)
    vhist.check_cancels(h)
    vhist.check_polls(h)
    c.sig(vhist.shape(h))
    c.sample({"answers": vhist.shape(h)[:12], "conc": conc})
