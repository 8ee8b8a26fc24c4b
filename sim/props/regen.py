"""Histories of regeneration in front of the final, clean generator runs."""
from .. import gen, lib
from ..lib import Violation, with_
from .c02 import DAY, POWER, stop_fault


def pick_history(rng, p, njobs):
    versions = [p]
    for _ in range(rng.choice([0, 1, 1, 2])):
        versions.append(gen.edit(rng, versions[-1]))
    steps = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append({"ver": rng.randrange(len(versions)), "job": rng.randrange(njobs),
                          "faults": [stop_fault(rng)] if rng.random() < 0.75 else [],
                          "power": [{"i": rng.randrange(8), "mode": rng.choice(POWER), "frac": rng.random()}]
                          if rng.random() < 0.25 else [],
                          "clock": rng.choice([0, 0, 1, -400, 3000])})
    return {"versions": versions, "final": rng.randrange(len(versions)), "steps": steps, "order": rng.randrange(1 << 30)}


def shrink(case):
    h = case["hist"]
    for sub in lib.shrink_list(h["steps"]):
        yield with_(case, hist=with_(h, steps=sub))
    if len(h["versions"]) > 1:
        yield with_(case, hist=with_(h, versions=[h["versions"][h["final"]]], final=0, steps=[with_(s, ver=0) for s in h["steps"]]))
        return
    for q in lib.shrink_project(h["versions"][0]):
        yield with_(case, hist=with_(h, versions=[q]))


def play(host, case, jobs, stats, earlier=None):
    """jobs: function project -> [(opts, outdir)].  Leaves a machine on which
    the last run of every job was a clean one on the final version."""
    h = case["hist"]
    host.fresh()
    prev = None
    trace = []
    for s in h["steps"]:
        v = h["versions"][s["ver"] % len(h["versions"])]
        if prev is not v:
            lib.put_project(host, v)
            prev = v
        host.now += s["clock"] * DAY
        if s["clock"]:
            host.note_fault("clock-jump")
        js = (earlier or jobs)(v)
        o, out = js[s["job"] % len(js)]
        before = host.tree() if s["power"] else None
        pr = host.run(gen.argv(v, o, out), faults=s["faults"])
        if s["power"]:
            host.power_loss(pr, s["power"], before)
        stats.probe("earlier run " + ("ok" if pr.code() == 0 else "ended by fault" if pr.fired else "rejected"))
        trace.append((o["cmd"], s["ver"], pr.code()))
    p = h["versions"][h["final"]]
    lib.put_project(host, p)
    js = list(jobs(p))
    import random
    random.Random(h["order"]).shuffle(js)
    for o, out in js:
        pr = host.run(gen.argv(p, o, out))
        if pr.ended != "exit" or pr.code() != 0:
            raise Violation("valid-model-rejected", f"generate-{o['cmd']} on a valid model after {trace}: status {pr.code()} "
                            f"({pr.ended}): {pr.err()[-300:].decode(errors='replace')} {pr.out()[-200:].decode(errors='replace')}")
    return p, trace
