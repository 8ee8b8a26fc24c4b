"""C10  the outcome does not depend on what was processed before or alongside."""
import os
import shutil

from .. import gen, lib, mutate
from ..host import FAIL, FAIL_AFTER, SIGINT
from ..host import T0
from ..lib import E, Violation, with_
from .common import *  # noqa

CASES = {"quick": 500, "thorough": 10000}
RULE = ("evaluation = one sequence of 2-6 invocations in one interpreter (different commands, options and projects or rewritten inputs, some rejected, "
        "some hit by I/O errors), each outcome compared with a fresh interpreter; or one COSMOS run for a seeded selection, order "
        "and repetition of messages compared packet by packet with single-message runs; non-trivial = the sequence has two "
        "different invocations, or the selection more than one packet; distinct by the sequence")
ASSUMPTIONS = ASSUMPTIONS + ["several invocations in one interpreter means executing main.py again in the same process, as an "
                             "embedding build script does"]


def gen_case(rng, tier, host):
    if rng.random() < 0.3:
        return selection(rng)
    projects = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        projects.append(gen.project(rng, rng.choice(["tlm", "general", "stored", "stored"])))
    if rng.random() < 0.4:
        projects.append(gen.edit(rng, projects[0]))
    # the same input files, rewritten between the invocations
    inplace = rng.random() < 0.45
    if inplace:
        projects = projects[:1]
        for _ in range(rng.choice([1, 1, 2, 3])):
            projects.append(gen.edit(rng, projects[-1]))
            while rng.random() < 0.75:
                projects[-1] = gen.edit(rng, projects[-1])
    runs = []
    # one command with the same options all along
    again = rng.random() < (0.6 if inplace else 0.3)
    first = rng.choice([None, "cosmos"]) if again else None
    share = rng.random() < 0.4
    for i in range(rng.choice([2, 2, 3, 3, 4, 6])):
        pi = rng.randrange(len(projects))
        p = projects[pi]
        c = gen.commands(p)
        if runs and rng.random() < 0.2:
            r = dict(rng.choice(runs))              # the same again
            r["out"] = "o" if share else f"o{i}"
        elif runs and again:
            r = {"p": pi, "o": runs[0]["o"], "out": "o" if share else f"o{i}"}
        else:
            o = gen.pick_opts(rng, p, first or ("binary" if "binary" in c and rng.random() < 0.5 else rng.choice(c)))
            r = {"p": pi, "o": o, "out": "o" if share else f"o{i}"}
        r["muts"] = []
        r["fault"] = None
        r["wipe"] = rng.random() < 0.25
        x = rng.random() * (2 if first else 1)
        if x < 0.2:
            m = mutate.pick(rng, p, r["o"])
            if m and m["kind"] not in ("unreadable-file",):
                r["muts"] = [m]
        elif x < 0.4:
            op = rng.choice(["openw", "write", "close", "openr", "read", "mkdir"])
            if op in ("openr", "read"):
                if not inplace:
                    r["fault"] = {"t": "rule", "ops": [op], "path": f"work/i{i}/", "skip": rng.randrange(3), "count": 1, "v": FAIL,
                              "a": rng.choice([E.EIO, E.EACCES])}
            elif not share:
                r["fault"] = {"t": "rule", "ops": [op], "path": f"work/{r['out']}", "skip": rng.randrange(4) if op != "mkdir" else 0,
                              "count": 1, "v": FAIL_AFTER if op == "close" else rng.choice([FAIL, FAIL, SIGINT]),
                              "a": rng.choice([E.EIO, E.ENOSPC]) if op != "x" else 0}
                if r["fault"]["v"] == SIGINT:
                    r["fault"]["a"] = E.EINTR
        runs.append(r)
    return {"projects": projects, "runs": runs, "inplace": inplace, "mtime": rng.choice([None, None, T0]), "gc": rng.choice([None, [5, 2, 2], [100000, 50, 50]])}


def selection(rng):
    for _ in range(30):
        p = gen.project(rng, rng.choice(["tlm", "tlm", "general", "stored"]))
        ms = [(m, n) for m, n in gen.messages(p) if len(n) > 1]
        if ms:
            break
    else:
        ms = gen.messages(p)
    mod, names = rng.choice(ms)
    extra = [d["name"] for m in p["modules"] if m["name"] == mod for d in m["defs"] if d["k"] == "seq" and d["name"] not in names]
    names = names + rng.sample(extra, min(len(extra), 2))
    sels = [names, names[::-1]]
    for _ in range(3):
        sels.append([rng.choice(names) for _ in range(rng.choice([2, 2, 3, 4, 5]))])
    return {"project": p, "module": mod, "names": names, "sels": sels}


def indir(case, i):
    return "in" if case.get("inplace") else f"i{i}"


def sample(case):
    if "sels" in case:
        return {"kind": "selection", "module": case["module"], "selections": case["sels"]}
    return {"kind": "sequence", "runs": [{"command": r["o"]["cmd"], "project": r["p"], "mutated": r["muts"], "fault": r["fault"]}
                                         for r in case["runs"]]}


def shrink(case):
    if "sels" in case:
        for sub in lib.shrink_list(case["sels"], 1):
            yield with_(case, sels=sub)
        if len(case["sels"]) == 1:
            for sub in lib.shrink_list(case["sels"][0], 1):
                yield with_(case, sels=[sub])
        for q in lib.shrink_project(case["project"]):
            yield with_(case, project=q)
        return
    for sub in lib.shrink_list(case["runs"], 1):
        yield with_(case, runs=sub)
    for i, r in enumerate(case["runs"]):
        for k, v in (("fault", None), ("muts", [])):
            if r[k]:
                yield with_(case, runs=case["runs"][:i] + [with_(r, **{k: v})] + case["runs"][i + 1:])
    if case["gc"]:
        yield with_(case, gc=None)
    for i, p in enumerate(case["projects"]):
        for q in lib.shrink_project(p):
            yield with_(case, projects=case["projects"][:i] + [q] + case["projects"][i + 1:])


def run_case(host, case, stats):
    if "sels" in case:
        return run_selection(host, case, stats)
    plan = []
    for i, r in enumerate(case["runs"]):
        p, o = case["projects"][r["p"]], r["o"]
        try:
            texts, files, modules, faults = mutate.apply(p, o, r["muts"])
        except mutate.Inapplicable:
            raise lib.Discard("mutation does not apply")
        argv = gen.argv(p, o, r["out"], files=files, modules=modules, indir=indir(case, i))
        fs = list(faults) + ([r["fault"]] if r["fault"] else [])
        plan.append((indir(case, i), texts, argv, fs, r["out"], r.get("wipe")))

    def wipe(i):
        # the output is removed before this invocation
        if plan[i][5]:
            shutil.rmtree(host.p("work/" + plan[i][4]), ignore_errors=True)

    def put_one(i):
        d, texts = plan[i][:2]
        if case.get("inplace"):
            shutil.rmtree(host.p(f"work/{d}"), ignore_errors=True)
        mutate.put(host, texts, f"work/{d}")
        if case.get("mtime") is not None:
            for f in texts:
                if os.path.isfile(host.p(f"work/{d}/{f}")):
                    os.utime(host.p(f"work/{d}/{f}"), ns=(case["mtime"], case["mtime"]))

    def put():
        host.fresh()
        for i in range(1 if case.get("inplace") else len(plan)):
            put_one(i)

    # fresh interpreters, same machine
    put()
    want = []
    for i, (d, texts, argv, fs, out, _) in enumerate(plan):
        if i and case.get("inplace"):
            put_one(i)
        wipe(i)
        pr = host.run(argv, faults=fs)
        if pr.ended != "exit" or (pr.code() or 0) < 0:
            raise lib.Discard("reference run ended abnormally")
        want.append((pr.code(), lib.files_of(host.tree("work/" + out))))
    # one interpreter
    put()
    got = []

    def on_mark(pr, path, arg):
        if path == "end":
            i = len(got)
            got.append((arg, lib.files_of(host.tree("work/" + plan[i][4]))))
            if i + 1 < len(plan):
                wipe(i + 1)
            if case.get("inplace") and i + 1 < len(plan):
                put_one(i + 1)
                host.note_fault("inputs-rewritten-between-invocations")

    host.on_mark = on_mark
    pr = host.run([x[2] for x in plan], faults=[f for x in plan for f in x[3]], gc=case["gc"])
    host.on_mark = None
    got.append((pr.code(), lib.files_of(host.tree("work/" + plan[-1][4]))))
    stats.evaluations += 1
    seq = [(r["o"], r["muts"], r["fault"], r["p"]) for r in case["runs"]]
    if len({repr(s) for s in seq}) > 1:
        stats.sig(seq, [gen.render(p) for p in case["projects"]])
    what = [r["o"]["cmd"] for r in case["runs"]]
    stats.probe("invocations in one interpreter", len(plan))
    for i, (a, b) in enumerate(zip(got, want)):
        stats.probe("invocation " + ("accepted" if b[0] == 0 else "rejected or failed"))
        if (a[0] == 0) != (b[0] == 0):
            raise Violation("status-depends-on-earlier-invocations",
                            f"{what}: invocation {i} ends with {a[0]}, in a fresh interpreter with {b[0]}: "
                            + pr.err()[-300:].decode(errors="replace"))
        if a[1] != b[1]:
            raise Violation("artefacts-depend-on-earlier-invocations", f"{what}: invocation {i}: {lib.describe(a[1], b[1])}")
    if len(got) != len(want):
        raise Violation("status-depends-on-earlier-invocations", f"{what}: the interpreter ended with {pr.code()} in invocation {len(got) - 1}")


def packets(data):
    """[(packet name, text)] of a COSMOS file."""
    res = []
    for line in data.decode().splitlines():
        if line.startswith("TELEMETRY "):
            res.append([line.split()[2], []])
        if res and line.strip() and not line.startswith("#"):
            res[-1][1].append(line.rstrip())
    return [(n, "\n".join(ls)) for n, ls in res]


def run_selection(host, case, stats):
    p = case["project"]
    single = {}
    for n in case["names"]:
        o = {"cmd": "cosmos", "module": case["module"], "messages": [n], "target": "sel"}
        host.fresh()
        lib.put_project(host, p)
        pr = host.run(gen.argv(p, o, "out"))
        if pr.code() != 0:
            single[n] = None            # this packet is rejected on its own
            continue
        ps = packets(host.get("work/out/sel.txt") or b"")
        if [x[0] for x in ps] != [n]:
            raise Violation("packets-not-those-requested", f"requested {n}, found {[x[0] for x in ps]}")
        single[n] = ps[0][1]
    for k, sel in enumerate(case["sels"]):
        if any(n not in single for n in sel):
            raise lib.Discard("selection of undefined messages")
        o = {"cmd": "cosmos", "module": case["module"], "messages": sel, "target": "sel"}
        host.fresh()
        lib.put_project(host, p)
        pr = host.run(gen.argv(p, o, "out"))
        stats.evaluations += 1
        if len(sel) > 1:
            stats.sig(sel, gen.render(p))
        stats.probe("packets compared", len(sel))
        bad = [n for n in sel if single[n] is None]
        if (pr.code() == 0) == bool(bad):
            raise Violation("acceptance-depends-on-selection", f"{sel}: status {pr.code()}, rejected on their own: {bad}", None)
        if bad:
            continue
        ps = packets(host.get("work/out/sel.txt") or b"")
        if [x[0] for x in ps] != sel:
            raise Violation("packets-not-those-requested", f"requested {sel}, found {[x[0] for x in ps]}")
        for n, text in ps:
            if text != single[n]:
                raise Violation("packet-depends-on-selection", f"{n} in {sel}: " + diff(text, single[n]))


def diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for x, y in zip(la, lb):
        if x != y:
            return f"{x.strip()!r} instead of {y.strip()!r}"
    return f"{len(la)} lines instead of {len(lb)}"
