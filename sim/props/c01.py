"""C01  exit status 0  =>  every artefact complete, whatever I/O call failed."""
from .. import gen, lib
from ..lib import Violation
from .common import *  # noqa

CASES = {"quick": 340, "thorough": 6000}
RULE = ("evaluation = one run of a random valid project under 1-3 explicit faults placed on the calls of its clean run "
        "(errors, short transfers, EINTR, SIGINT, SIGTERM/SIGHUP/SIGQUIT, full disk), with an empty, existing or stale output directory; "
        "non-trivial = at least one fault fired inside the run; distinct by command, prior state and the sequence of "
        "(call, verdict, errno) fired together with its position")


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng)
    out = rng.choice(["out", "out", "a/b/out", "."])
    pr, tree = lib.baseline(host, p, o, out)
    case = {"project": p, "opts": o, "out": out, "trials": []}
    inputs = set(gen.render(p))
    ref = {k: v for k, v in tree.items() if k not in inputs}
    calls = {"none": pr.ops}

    def ops(pre):
        # the calls of an undisturbed run on that prior state
        if pre not in calls:
            prepare(host, case, {"pre": pre}, ref)
            calls[pre] = host.run(gen.argv(p, o, out)).ops
        return calls[pre]

    swarm = [k for k in ("err", "err", "short", "eintr", "sigint", "signal", "diskfull", "persist", "readonly") if rng.random() < 0.8] or ["err"]
    for _ in range(12):
        pre = rng.choice(["none", "none", "dir", "stale", "longer", "same"])
        x = rng.random()
        if x < 0.25:
            fs = [lib.pick_fault(rng, ops(pre), ("short", "eintr")) for _ in range(rng.choice([1, 2, 3, 5]))]
        else:
            fs = [lib.pick_fault(rng, ops(pre), swarm) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        case["trials"].append({"faults": fs, "pre": pre, "std": int(rng.random() < 0.3)})
    return case


def sample(case):
    return {"command": case["opts"]["cmd"], "modules": len(case["project"]["modules"]), "out": case["out"],
            "trials": case["trials"][:2]}


shrink = lib.default_shrink


def prepare(host, case, trial, ref):
    host.fresh()
    lib.put_project(host, case["project"])
    out = "work/" + case["out"]
    if trial["pre"] == "dir":
        host.put(out + "/keep.me", "x")
    elif trial["pre"] in ("stale", "same", "longer"):
        for i, (f, b) in enumerate(sorted(ref.items())):
            host.put(f"{out}/{f}", b if trial["pre"] == "same" else b[::-1] + b"/* old */\n" * (1 + 40 * (i % 3)) if trial["pre"] == "longer"
                     else b"/* old */\n" * (3 + 40 * i) + b[:40])


def run_case(host, case, stats):
    p, o = case["project"], case["opts"]
    inputs = set(gen.render(p))
    _, tree = lib.baseline(host, p, o, case["out"])
    ref = {k: v for k, v in tree.items() if k not in inputs}
    want = set(gen.artefacts(p, o["cmd"], o))
    if set(ref) < want:
        raise Violation("artefact-missing", f"clean {o['cmd']} run exits 0 without {sorted(want - set(ref))}")
    for n, t in enumerate(case["trials"]):
        prepare(host, case, t, ref)
        pr = host.run(gen.argv(p, o, case["out"]), faults=t["faults"], std=t["std"])
        stats.evaluations += 1
        if pr.fired:
            stats.sig(o["cmd"], t["pre"], lib.fire_sig(pr), [(f.get("skip"), (f.get("path") or "")[-6:]) for f in t["faults"]])
        ok = pr.ended == "exit" and pr.code() == 0
        stats.probe("exit 0 despite fault" if ok and pr.fired else "exit 0" if ok else "exit non-zero")
        where = f"{o['cmd']} faults fired: {lib.fire_sig(pr)} prior output: {t['pre']}"
        if ok:
            got = {k: host.get(f"work/{case['out']}/{k}") for k in ref}
            got = {k: v for k, v in got.items() if v is not None}
            if got != ref:
                raise Violation("success-with-incomplete-artefact", f"{where}: exit status 0 but {lib.describe(got, ref)}", n)
        elif all(lib.benign(f) for f in t["faults"]):
            raise Violation("harmless-disturbance-fails-run",
                            f"{where}: status {pr.code()} ({pr.ended}) {last(pr)}", n)


def last(pr):
    e = pr.err().decode(errors="replace").strip().splitlines()
    return e[-1][:200] if e else ""
