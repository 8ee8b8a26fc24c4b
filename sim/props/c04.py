"""C04  the order of input files and module names does not matter."""
from .. import gen, lib, mutate
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 520, "thorough": 12000}
RULE = ("evaluation = one run with the input files and the module list presented in another seeded order (as a directory "
        "listing of another file system would), valid or inconsistent project, compared with the order of the reference "
        "run; non-trivial = the file order differs; distinct by project and order")


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng, modules=rng.choice([2, 3, 3, 4, 5]))
    if rng.random() < 0.35:
        # a module whose name resembles that of another one
        for i in range(rng.choice([1, 1, 2])):
            like = o["module"] if o.get("module") and rng.random() < 0.7 else rng.choice(p["modules"])["name"]
            name = rng.choice([like + "4", like + "-b", "a" + like, like[:-1] if len(like) > 2 and like[-2] != "-" else like + "x"])
            if name not in [m["name"] for m in p["modules"]]:
                p["modules"].insert(rng.randrange(len(p["modules"]) + 1), {"name": name, "file": f"like{i}.asn", "imports": [], "defs": [
                    {"k": "enum", "name": f"Zz-like{i}", "items": [{"key": "zz-a"}, {"key": "zz-b"}]}]})
    muts = []
    if rng.random() < 0.3:
        m = mutate.pick(rng, p, o)
        if m:
            muts = [m]
    trials = []
    for _ in range(6):
        trials.append({"files": rng.sample(range(100), 12), "modules": rng.sample(range(100), 12),
                       "hashseed": rng.randrange(3)})
    trials[0]["files"] = list(range(100, 88, -1))           # exact reversal
    return {"project": p, "opts": o, "muts": muts, "trials": trials}


def sample(case):
    return {"command": case["opts"]["cmd"], "modules": [m["name"] for m in case["project"]["modules"]],
            "mutations": case["muts"], "orders": case["trials"][:2]}


def shrink(case):
    yield from lib.shrink_trials(case)
    if len(case["trials"]) == 1:
        t = case["trials"][0]
        if t["modules"] != list(range(12)):
            yield with_(case, trials=[with_(t, modules=list(range(12)))])
        if t["files"] != list(range(12)):
            yield with_(case, trials=[with_(t, files=list(range(12)))])
        if t["hashseed"]:
            yield with_(case, trials=[with_(t, hashseed=0)])
    for q in lib.shrink_project(case["project"]):
        yield with_(case, project=q)


def order(lst, keys):
    return [x for _, _, x in sorted((keys[i % len(keys)], i, x) for i, x in enumerate(lst))]


def outcome(host, case, t):
    p, o = case["project"], case["opts"]
    texts, files, modules, faults = mutate.apply(p, o, case["muts"])
    host.fresh()
    mutate.put(host, texts)
    if t:
        f2, m2 = order(files, t["files"]), order(modules, t["modules"])
    else:
        f2, m2 = files, modules
    pr = host.run(gen.argv(p, o, "out", files=f2, modules=m2), faults=faults, hashseed=t["hashseed"] if t else 0)
    return (pr.ended == "exit" and pr.code() == 0), lib.files_of(host.tree("work/out")), pr, f2 != files or m2 != modules


def run_case(host, case, stats):
    try:
        ok, ref, pr, _ = outcome(host, case, None)
    except mutate.Inapplicable:
        raise lib.Discard("mutation does not apply")
    if not ok and not case["muts"]:
        raise lib.Discard("baseline rejected")
    for n, t in enumerate(case["trials"]):
        ok2, got, pr2, changed = outcome(host, case, t)
        stats.evaluations += 1
        if changed:
            stats.sig(gen.render(case["project"]), t, case["muts"])
        stats.probe("accepted" if ok2 else "rejected")
        host.note_fault("input-order")
        what = f"{case['opts']['cmd']} {pr2.host.log[0][2][:300] if pr2.host.log else ''}"
        if ok != ok2:
            raise Violation("acceptance-depends-on-order", f"{what}: accepted={ok2}, in the given order accepted={ok}", n)
        if ok and got != ref:
            raise Violation("artefacts-depend-on-order", f"{what}: {lib.describe(got, ref)}", n)
