"""C06  inconsistent projects are rejected, and nothing is written."""
from .. import gen, lib, mutate
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 560, "thorough": 12000}
RULE = ("evaluation = one run on a project made inconsistent by 1-2 of %d kinds of mutation (files missing, unreadable by "
        "injected open/read faults, truncated by a torn copy, duplicated, ...), with a previous output directory that is "
        "absent, empty or holds artefacts; non-trivial = the mutation applies (always); distinct by command, kinds, place "
        "and prior state" % len(mutate.KINDS))


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng)
    trials = []
    kinds = mutate.KINDS + mutate.RICH
    rng.shuffle(kinds)
    for k in kinds:
        mu = mutate.pick(rng, p, o, k)
        if mu is None:
            continue
        mus = [mu]
        if rng.random() < 0.25:
            mus = mutate.pick_some(rng, p, o, k, rng.choice([2, 3])) or mus
        elif rng.random() < 0.2:
            m2 = mutate.pick(rng, p, o)
            try:
                if m2:
                    mutate.apply(p, o, [mu, m2])
                    mus = [mu, m2]
            except mutate.Inapplicable:
                pass
        trials.append({"muts": mus, "pre": rng.choice(["none", "empty", "artefacts", "garbage"]),
                       "rot": rng.randrange(len(p["modules"]))})
        if len(trials) >= 10:
            break
    return {"project": p, "opts": o, "out": rng.choice(["out", "out", "gen/x"]), "trials": trials, "pristine": True}


def sample(case):
    return {"command": case["opts"]["cmd"], "modules": [m["name"] for m in case["project"]["modules"]],
            "trials": case["trials"][:3]}


def shrink(case):
    yield from lib.shrink_trials(case)
    if len(case["trials"]) == 1:
        t = case["trials"][0]
        for sub in lib.shrink_list(t["muts"], 1):
            yield with_(case, trials=[with_(t, muts=sub)])
        if t["pre"] != "none":
            yield with_(case, trials=[with_(t, pre="none")])
    for q in lib.shrink_project(case["project"]):
        yield with_(case, project=q, pristine=False)        # may no longer be consistent


def run_case(host, case, stats):
    p, o = case["project"], case["opts"]
    try:
        _, ref = lib.baseline(host, p, o, case["out"])          # the project itself is accepted
    except lib.Discard:
        if case.get("pristine"):
            raise Violation("consistent-project-rejected", f"{o['cmd']}: a project without any inconsistency is not accepted")
        raise
    for n, t in enumerate(case["trials"]):
        try:
            texts, files, modules, faults = mutate.apply(p, o, t["muts"])
        except mutate.Inapplicable:
            continue
        host.fresh()
        mutate.put(host, texts)
        out = "work/" + case["out"]
        if t["pre"] == "empty":
            import os
            os.makedirs(host.p(out))
        elif t["pre"] != "none":
            for f, b in ref.items():
                host.put(f"{out}/{f}", b if t["pre"] == "artefacts" else b"garbage " * 7)
        r = t["rot"] % len(files)
        files = files[r:] + files[:r]
        before = host.tree()
        pr = host.run(gen.argv(p, o, case["out"], files=files, modules=modules), faults=faults)
        stats.evaluations += 1
        kinds = "+".join(sorted(m["kind"] for m in t["muts"]))
        stats.sig(o["cmd"], kinds, t["pre"], t["muts"])
        for m in t["muts"]:
            stats.probe(m["kind"])
            if m["kind"] in ("missing-file", "truncated", "empty-file", "directory", "duplicate-file"):
                host.note_fault("input-" + m["kind"])
        where = f"{o['cmd']} with {t['muts']}"
        if pr.ended != "exit":
            raise Violation("inconsistent-project-not-rejected", f"{where}: the run does not end ({pr.ended})", n)
        if pr.code() == 0:
            if faults and not pr.fired:
                continue                    # the file was not read at that point at all
            raise Violation("inconsistent-project-accepted", f"{where}: exit status 0", n)
        if not (pr.out() + pr.err()).strip():
            raise Violation("no-diagnostic", f"{where}: status {pr.code()} without any message", n)
        after = host.tree()
        if after != before:
            raise Violation("rejected-but-output-changed", f"{where}: {lib.describe(after, before)}", n)
        if pr.escapes:
            raise Violation("rejected-but-output-changed", f"{where}: tried {pr.escapes}", n)
