"""C07  concurrent invocations do not disturb each other."""
import copy

from .. import gen, lib
from ..host import DIE_AFTER, DIE_BEFORE, DIE_PARTIAL, FAIL
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 280, "thorough": 12000}
RULE = ("evaluation = 2-4 invocations on one machine, interleaved call by call by an explicit seeded schedule (long slices, "
        "single steps, stops in front of chosen calls), some with one of them killed or failing, compared with each run on its "
        "own; non-trivial = the schedule switched between two unfinished invocations at least twice; distinct by the sequence "
        "of (process, call) decisions")
STUB = STUB + ["the kernel's process scheduler: one announced call of one process at a time, chosen by the simulator"]
STOPS = ["mkdir", "openw", "write", "close", "stat", "openr", "read"]


def schedule(rng, n):
    mode = rng.choice(["slices", "slices", "steps", "stops", "stops", "mixed", "lockstep"])
    segs = []
    if mode == "slices":
        for _ in range(rng.choice([2, 3, 5, 8])):
            segs.append([rng.randrange(n), rng.choice([3, 10, 20, 40, rng.randrange(1, 80)])])
    elif mode == "steps":
        for _ in range(rng.choice([50, 150, 400])):
            segs.append([rng.randrange(n), rng.choice([1, 1, 1, 2, 3])])
    elif mode == "lockstep":
        for _ in range(rng.choice([60, 200])):
            segs += [[p, 1] for p in range(n)]
    else:
        first = rng.choice(STOPS)
        for p in rng.sample(range(n), n):
            segs.append([p, first])
        for _ in range(rng.choice([2, 5, 10, 20])):
            p = rng.randrange(n)
            segs.append([p, rng.choice([1, 1, 2, 5]) if mode == "mixed" or rng.random() < 0.4 else rng.choice(STOPS[:4])])
            if rng.random() < 0.5:
                segs.append([p, 1])
    last = rng.sample(range(n), n)
    return segs, last


def rename_modules(p, suffix):
    """The same kind of project under other module names."""
    q = copy.deepcopy(p)
    for m in q["modules"]:
        m["file"] = m["file"].replace(".asn", f"{suffix}.asn")
        m["name"] += suffix
        for im in m["imports"]:
            im["from"] += suffix
    return q


def gen_case(rng, tier, host):
    p = lib.pick_project(rng)
    projects = [p]
    twin = rng.random() < 0.25          # identical invocations
    n = rng.choice([2, 2, 2, 3, 4])
    invs = []
    base = rng.choice(["out", "out", "gen/a/b", "."])
    if twin:
        o = gen.pick_opts(rng, p, rng.choice(gen.commands(p)))
        inv = {"p": 0, "o": o, "out": base}
        invs = [inv] * n
    else:
        used = set()
        for i in range(n):
            for _ in range(20):
                pi = rng.randrange(len(projects))
                o = gen.pick_opts(rng, projects[pi], rng.choice(gen.commands(projects[pi])))
                if o["cmd"] == "cosmos":
                    o["target"] = f"{o['target']}{i}"
                out = base if rng.random() < 0.6 or base == "." else f"{base}/{rng.choice(['x', 'y', 'x/z'])}"
                key = [(pi, out, "hdr" if o["cmd"] in ("c", "binary") else o["cmd"] if o["cmd"] == "cfs" else o["target"])]
                if used & set(key):
                    if o["cmd"] != "cosmos" and rng.random() < 0.6:
                        projects.append(rename_modules(rng.choice([p, lib.pick_project(rng)]), f"-q{len(projects)}"))
                    continue
                used |= set(key)
                invs.append({"p": pi, "o": o, "out": out, "bad": rng.random() < 0.08 and o["cmd"] != "cosmos"})
                break
        if len(invs) < 2:
            raise lib.Discard("no distinct invocations")
    trials = []
    for _ in range(4):
        segs, last = schedule(rng, len(invs))
        t = {"segs": segs, "last": last, "faults": None}
        if not twin and rng.random() < 0.35:
            v = rng.choice([DIE_BEFORE, DIE_AFTER, DIE_PARTIAL, FAIL])
            op = "write" if v == DIE_PARTIAL else rng.choice(["openw", "write", "close", "mkdir", "openr"])
            t["faults"] = {"proc": rng.randrange(len(invs)),
                           "f": {"t": "rule", "ops": [op], "path": "", "skip": rng.randrange(0, 5), "count": 1, "v": v,
                                 "frac": rng.random(), "a": 28 if v == FAIL else 0}}
        trials.append(t)
    return {"projects": projects, "invs": invs, "trials": trials, "prev": rng.random() < 0.3}


def sample(case):
    return {"invocations": [{"command": i["o"]["cmd"], "out": i["out"], "project": i["p"]} for i in case["invs"]],
            "schedule": [t["segs"][:10] for t in case["trials"][:1]], "fault": case["trials"][0]["faults"]}


def shrink(case):
    yield from lib.shrink_trials(case)
    if len(case["trials"]) == 1:
        t = case["trials"][0]
        if t["faults"]:
            yield with_(case, trials=[with_(t, faults=None)])
        n = len(case["invs"])
        if n > 2:
            for d in range(n):
                if t["faults"] and t["faults"]["proc"] == d:
                    continue
                m = lambda x: x - (x > d)
                t2 = {"segs": [[m(p), k] for p, k in t["segs"] if p != d], "last": [m(p) for p in t["last"] if p != d],
                      "faults": t["faults"] and dict(t["faults"], proc=m(t["faults"]["proc"]))}
                yield with_(case, invs=case["invs"][:d] + case["invs"][d + 1:], trials=[t2])
        for sub in lib.shrink_list(t["segs"]):
            yield with_(case, trials=[with_(t, segs=sub)])
    if case["prev"]:
        yield with_(case, prev=False)
    for i, p in enumerate(case["projects"]):
        for q in lib.shrink_project(p):
            yield with_(case, projects=case["projects"][:i] + [q] + case["projects"][i + 1:])


def av(case, inv):
    p, o = case["projects"][inv["p"]], inv["o"]
    a = gen.argv(p, o, inv["out"])
    return [x + ",no-such-module" if inv.get("bad") and x.startswith("--asn1-modules") else x for x in a]


def setup(host, case):
    host.fresh()
    for p in case["projects"]:
        lib.put_project(host, p)


class Chooser:
    def __init__(self, segs, last, procs):
        self.segs = [list(s) for s in segs]
        self.last = last
        self.procs = procs
        self.prev = None
        self.switches = 0
        self.trace = []

    def __call__(self, live):
        while self.segs:
            p, k = self.segs[0]
            q = self.procs[p]
            if q.ended is not None or k == 0:
                self.segs.pop(0)
                continue
            if isinstance(k, str):
                if q.pending[0] == k:
                    self.segs.pop(0)
                    continue
            else:
                self.segs[0][1] -= 1
            return self.pick(q, live)
        for p in self.last:
            if self.procs[p].ended is None:
                return self.pick(self.procs[p], live)
        return 0

    def pick(self, q, live):
        if self.prev is not None and self.prev is not q and self.prev.ended is None:
            self.switches += 1
        self.prev = q
        self.trace.append((q.name, q.pending[0]))
        return live.index(q)


def run_case(host, case, stats):
    solo = []
    for inv in case["invs"]:
        setup(host, case)
        pr = host.run(av(case, inv))
        if (pr.ended != "exit") or (pr.code() != 0) != bool(inv.get("bad")):
            raise lib.Discard("baseline rejected")
        before = {f for p in case["projects"] for f in gen.render(p)}
        solo.append((pr.code(), {k: v for k, v in lib.files_of(host.tree("work")).items() if k not in before}))
    keys = [av(case, i) for i in case["invs"]]
    for i in range(len(keys)):
        for j in range(i):
            if keys[i] != keys[j] and set(solo[i][1]) & set(solo[j][1]):
                raise lib.Discard("artefacts overlap")
    inputs = {}
    for p in case["projects"]:
        inputs.update({f: t.encode() for f, t in gen.render(p).items()})
    for n, t in enumerate(case["trials"]):
        setup(host, case)
        if case["prev"]:
            for _, tree in solo:
                for k, v in sorted(tree.items()):
                    host.put("work/" + k, v[: len(v) // 2] + b"stale\n" + v[len(v) // 3:])
        fp = t["faults"]["proc"] if t["faults"] else None
        procs = [host.spawn([keys[i]], faults=[t["faults"]["f"]] if fp == i else (), pid=4242 + i, seed=7 + i)
                 for i in range(len(keys))]
        ch = Chooser(t["segs"], t["last"], procs)
        host.run_many(procs, ch)
        stats.evaluations += 1
        if ch.switches >= 2:
            stats.sig(ch.trace)
        stats.probe("schedule with context switches" if ch.switches >= 2 else "serial schedule")
        host.note_fault("context-switch", ch.switches)
        tree = lib.files_of(host.tree("work"))
        failed = fp if fp is not None and procs[fp].fired else None
        if failed is not None:
            stats.probe("with one invocation killed or failing")
        want = dict(inputs)
        what = [f"{i['o']['cmd']}->{i['out']}" for i in case["invs"]]
        for i, pr in enumerate(procs):
            if i == failed:
                continue
            if (pr.ended != "exit") or (pr.code() != 0) != (solo[i][0] != 0):
                raise Violation("invocation-fails-only-concurrently",
                                f"{what}: invocation {i} ends with {pr.code()} ({pr.ended}), alone with {solo[i][0]}; "
                                f"{pr.err()[-200:].decode(errors='replace')}", n)
            want.update(solo[i][1])
        got = {k: v for k, v in tree.items() if k in want}
        if got != want:
            raise Violation("result-differs-from-serial-run", f"{what}: {lib.describe(got, want)}", n)
        extra = set(tree) - set(want) - (set(solo[failed][1]) if failed is not None else set())
        if extra and failed is None:
            raise Violation("additional-files-after-concurrent-runs", f"{what}: {sorted(extra)[:4]}", n)
