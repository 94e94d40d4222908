"""The oracle compares the recorded log of sequences and drivers: every item sent is got once by the driver of the sequencer it was sent
to, as the same object with the same contents, in the order its sequence sent it; items are granted one at a time; finish_item returns
at the instant the driver was done with that item; the driver gets an item at the instant it is sent. try_next_item returns without
time passing, with an item when one was requested before. Not covered: several drivers on one sequencer, killed sequences (C07)."""
from cocotb.triggers import Timer

from vp.monitor import Output
from vp.seqrun import Run, gen_seqs, gen_sqr

SIM = True
BATCH = 20
CASES = {"quick": 1500, "thorough": 20000}
SIM_LIMIT_NS = 1000000
TECHNIQUE = "runtime monitoring: offline checker over the recorded log of all sequence and driver steps (exactly once, order, times)"
LEVEL_NOTE = "Random sequences and drivers on the real sequencer in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-20 sequences (flat, nested, parallel children, items sent to other sequencers, start_item/finish_item and uvm_do/uvm_send "
        "macros) on 1-3 sequencers, drivers using get_next_item, try_next_item, get, peek or a mix, random delays everywhere; non-trivial: "
        "two sequences sent items; distinct: hash of the log")
REQUIRE = {"items": 8000, "contended": 2000, "by_macro": 800, "to_other_sequencer": 300, "try_none": 1000, "try_got": 500, "peeked": 500,
           "late_sent": 500}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]


def gen(rng, tier):
    sqrs = [gen_sqr(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    tries = [k for k, s in enumerate(sqrs) if s["style"] in ("try", "mix")]
    return {"sqrs": sqrs, "seqs": gen_seqs(rng, tier, len(sqrs), tries=tries)}


async def run(case, mon):
    r = Run(case, mon).build()
    out = Output()
    with out:
        ok = await r.go(20000)
        reps = [x for x in out.take()[0] if x[0] in ("UVM_ERROR", "UVM_FATAL")]
    mon.check(not reps, "reports", f"errors reported: {reps[:3]}")
    mon.check(ok, "stuck", lambda: f"sequences never ended; last steps {r.log[-6:]}")
    check_log(r, case, mon)


def check_log(r, case, mon):
    by = {}
    for n, e in enumerate(r.log):
        mon.event(*e)
        by.setdefault((e[0], e[4] if e[0] in ("req", "grant", "sent", "fin") else e[3]) if len(e) > 3 and e[0] in (
            "req", "grant", "sent", "fin", "got", "done") else (e[0],), []).append((n, e))
    sqr_of, seq_of = {}, {}
    for i in range(len(r.items)):
        mon.count("items")
        (rn, req), = by[("req", i)]
        k, j = req[2], req[3]
        sqr_of[i], seq_of[i] = k, j
        got, done, fin = by.get(("got", i), []), by.get(("done", i), []), by.get(("fin", i), [])
        mon.check(len(got) == 1, "once", f"item {i} of sequence {j} got by drivers {len(got)} times")
        mon.check(len(fin) == 1 and len(done) == 1, "finished", f"item {i}: done {len(done)} times, send returned {len(fin)} times")
        if not (len(got) == len(done) == len(fin) == 1):
            continue
        g, d, f = got[0][1], done[0][1], fin[0][1]
        mon.equal(g[2], k, "sequencer", f"item {i} sent to sequencer {k} came out of")
        mon.check(g[4] is True and g[5] == r.payload[i], "unaltered", f"item {i} delivered altered or as another object ({g})")
        mon.equal(f[1], d[1], "send-returns", f"time the send of item {i} returned, done at that of")
        mon.check(got[0][0] < done[0][0], "order-steps", f"item {i} done before it was got")
        mon.check(fin[0][0] > done[0][0] or g[0] == "got" and d[1] == g[1], "order-steps", f"item {i}: send returned before it was done")
        sent = by.get(("sent", i))
        if sent:
            mon.equal(g[1], sent[0][1][1], "delivery", f"time item {i} was delivered, against the time it was sent")
            gr = by[("grant", i)][0][1]
            mon.count("late_sent", gr[1] != sent[0][1][1])
        else:
            mon.count("by_macro")
        mon.count("to_other_sequencer", k != case["seqs"][j]["sqr"])
        mon.count("contended", req[1] < g[1])
    # -- order within a sequence and sequencer
    last = {}
    for e in r.log:
        if e[0] == "got" and e[3] is not None:
            i = e[3]
            key = (e[2], seq_of.get(i))
            mon.check(last.get(key, -1) < i, "sequence-order", f"sequencer {e[2]}: item {i} of sequence {key[1]} came after {last.get(key)}")
            last[key] = i
    # -- one item at a time per sequencer
    out = {}
    for e in r.log:
        if e[0] in ("grant", "got"):
            k, i = e[2], e[4] if e[0] == "grant" else e[3]
            mon.check(out.get(k) in (None, i), "one-at-a-time", f"sequencer {k}: item {i} {e[0]} while item {out.get(k)} is outstanding")
            if e[0] == "got" or out.get(k) is None:
                out[k] = i
        elif e[0] == "done":
            out[e[2]] = None
    # -- polling
    wants = {}
    waiting = {}
    for e in r.log:
        if e[0] == "req":
            waiting[e[4]] = e
        elif e[0] == "want":
            wants[e[2]] = e
        elif e[0] in ("none", "got"):
            w = wants.get(e[2])
            if e[0] == "got":
                waiting.pop(e[3], None)
                mon.count("peeked", w[3] == "peek")
            if w and w[3] == "try":
                mon.equal(e[1], w[1], "try-time", f"time try_next_item at {w[1]} returned")
                mon.count("try_" + e[0])
                if e[0] == "none":
                    older = [x for x in waiting.values() if x[2] == e[2] and x[1] < w[1]]
                    mon.check(not older, "try-missed", f"try_next_item at {w[1]} returned nothing, waiting: {older[:2]}")
    for k, sqr in enumerate(r.sqrs):
        mon.equal(sqr.get_num_reqs_sent(), len([i for i in sqr_of if sqr_of[i] == k]), "count", f"requests counted by sequencer {k}")
        mon.check(sqr.get_current_item() is None, "leftover", f"sequencer {k} still holds an item")
    mon.nontrivial = len(set(r.sent_by)) > 1
