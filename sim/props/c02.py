"""C02  a clean run repairs whatever earlier runs left behind."""
from .. import gen, lib
from ..host import DIE_AFTER, DIE_BEFORE, DIE_PARTIAL, FAIL, SIGINT
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 560, "thorough": 14000}
RULE = ("evaluation = one history on one machine: 1-5 steps (runs of older or newer versions of the model with kills, I/O "
        "errors, SIGINT or power loss; files damaged in the output directory; clock jumps) followed by a clean run and a "
        "second clean run, compared with an empty machine; non-trivial = before the final run the output directory holds "
        "an artefact that differs from the expected one; distinct by the sequence of steps with their outcomes")
POWER = ["lost", "old", "empty", "prefix", "zeros", "garbage", "grown"]
JUNK = ["empty", "prefix", "flip", "flip", "block", "end", "garbage", "longer", "flip", "end", "other", "crlf", "newer", "same", "trail", "blank", "upper", "bom"]
DAY = 86_400_000_000_000


def stop_fault(rng):
    """Something that ends a run while it writes."""
    x = rng.random()
    f = {"t": "rule", "path": "work/", "count": 1, "skip": rng.randrange(0, 7)}
    if x < 0.5:
        op = rng.choice(["openw", "write", "write", "close", "mkdir", "rename", "fsync", "unlink"])
        f.update(ops=[op], v=rng.choice([DIE_BEFORE, DIE_AFTER] + [DIE_PARTIAL] * (2 * (op == "write"))), frac=rng.random())
        f["path"] = "" if op == "mkdir" else "work/"
        if op == "close":
            f["skip"] += 3
    elif x < 0.8:
        op = rng.choice(["openw", "write", "write"])
        f.update(ops=[op], v=FAIL, a=rng.choice([5, 28, 122]))
        if rng.random() < 0.3:
            f["count"] = -1
    elif x < 0.9:
        return {"t": "diskfull", "bytes": rng.choice([0, 10, 500, 2000, 5000]), "errno": 28}
    else:
        f.update(ops=[rng.choice(["openw", "write", "close"])], v=SIGINT, a=4)
    return f


def damage(rng):
    return {"do": "junk", "i": rng.randrange(12), "mode": rng.choice(JUNK), "frac": rng.choice([rng.random(), 1 - rng.random() ** 2 / 3]),
            "mtime": rng.choice([None, 0, DAY * 30000])}


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng)
    versions = [p]
    for _ in range(rng.choice([0, 1, 1, 2])):
        versions.append(gen.edit(rng, versions[-1]))
    final = rng.randrange(len(versions))
    steps = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        x = rng.random()
        if x < 0.6:
            o2 = o if rng.random() < 0.6 else gen.pick_opts(rng, p, rng.choice(gen.commands(p)))
            if o2["cmd"] == "cosmos" and o["cmd"] == "cosmos" and rng.random() < 0.8:
                o2 = dict(o2, target=o["target"])
            steps.append({"do": "run", "ver": rng.randrange(len(versions)), "opts": o2,
                          "faults": [stop_fault(rng)] if rng.random() < 0.65 else [],
                          "power": [{"i": rng.randrange(8), "mode": rng.choice(POWER), "frac": rng.random()}
                                    for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < 0.3 else []})
        elif x < 0.88:
            steps.append(damage(rng))
        else:
            steps.append({"do": "clock", "days": rng.choice([-4000, -1, 1, 365, 5000])})
    if rng.random() < 0.5:
        # damage that no later run gets to see
        for _ in range(rng.choice([1, 2, 4])):
            steps.append(damage(rng))
    return {"versions": versions, "final": final, "opts": o, "steps": steps, "out": rng.choice(["out", "gen/out"])}


def sample(case):
    return {"command": case["opts"]["cmd"], "versions": len(case["versions"]), "final": case["final"], "steps": case["steps"]}


def shrink(case):
    for sub in lib.shrink_list(case["steps"]):
        yield with_(case, steps=sub)
    for i, s in enumerate(case["steps"]):
        if s["do"] == "run":
            for k in ("faults", "power"):
                if s[k]:
                    yield with_(case, steps=case["steps"][:i] + [with_(s, **{k: s[k][:-1]})] + case["steps"][i + 1:])
    if len(case["versions"]) > 1:
        v = case["versions"]
        yield with_(case, versions=[v[case["final"]]], final=0, steps=[with_(s, ver=0) if s["do"] == "run" else s for s in case["steps"]])
        return
    for q in lib.shrink_project(case["versions"][0]):
        yield with_(case, versions=[q])


def run_case(host, case, stats):
    vs, o, out = case["versions"], case["opts"], case["out"]
    p = vs[case["final"]]
    _, ref = lib.baseline(host, p, o, out)
    host.fresh()
    trace = []
    prev = None
    for s in case["steps"]:
        if s["do"] == "clock":
            host.now += s["days"] * DAY
            host.note_fault("clock-jump")
            trace.append("clock")
            continue
        if s["do"] == "junk":
            names = sorted(ref)
            f = names[s["i"] % len(names)]
            b = ref[f]
            n = int(len(b) * s["frac"])
            data = {"empty": b"", "prefix": b[:n], "flip": b[:n] + bytes(c ^ 1 for c in b[n:n + 1]) + b[n + 1:],
                    "block": b[:n // 512 * 512] + bytes(len(b[n // 512 * 512:][:512])) + b[n // 512 * 512 + 512:],
                    "end": b[:-2] + bytes(c ^ 3 for c in b[-2:]),
                    "garbage": bytes((i * 37 + 11) % 251 for i in range(len(b))), "longer": b + b"\n/* tail */\n" * 50,
                    "other": ref[names[(s["i"] + 1) % len(names)]] + b" ", "crlf": b.replace(b"\n", b"\r\n"),
                    "newer": b[:n] + b"#", "same": b, "trail": b.replace(b"\n", b" \n") + b"\n",
                    "blank": b[:n] + b"\n" + b[n:], "upper": b.upper(), "bom": b"\xef\xbb\xbf" + b}[s["mode"]]
            host.put(f"work/{out}/{f}", data, mtime=s["mtime"])
            host.note_fault("damaged-artefact:" + s["mode"])
            trace.append("junk:" + s["mode"])
            continue
        v = vs[s["ver"] % len(vs)]
        if prev is not v:
            lib.put_project(host, v)
            prev = v
        before = host.tree() if s["power"] else None
        pr = host.run(gen.argv(v, s["opts"], out), faults=s["faults"])
        stats.probe("earlier run " + ("ok" if pr.code() == 0 else "ended by fault" if pr.fired else "rejected"))
        lost = 0
        if s["power"]:
            lost = host.power_loss(pr, s["power"], before)
        trace.append(("run", s["opts"]["cmd"], s["ver"], pr.code(), lib.fire_sig(pr), lost))
        host.now += 60_000_000_000
    lib.put_project(host, p)
    there = {k: host.get(f"work/{out}/{k}") for k in ref}
    stale = any(v is not None and v != ref[k] for k, v in there.items())
    stats.evaluations += 1
    if stale:
        stats.sig(o["cmd"], trace)
        stats.probe("stale or damaged artefact before final run")
    for what in ("final run", "repeated run"):
        pr = host.run(gen.argv(p, o, out))
        where = f"{o['cmd']} after {trace}: {what}"
        if pr.ended != "exit" or pr.code() != 0:
            raise Violation("clean-run-fails-after-history", f"{where} ends with status {pr.code()} ({pr.ended})")
        got = {k: host.get(f"work/{out}/{k}") for k in ref}
        got = {k: v for k, v in got.items() if v is not None}
        if got != ref:
            raise Violation("stale-artefact-after-clean-run" if what == "final run" else "repeated-run-changes-output",
                            f"{where}: {lib.describe(got, ref)}")
