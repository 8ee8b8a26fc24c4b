"""C14  what is generated for a module depends on it and its imports only."""
import copy

from .. import gen, lib, mutate
from ..lib import Violation, with_
from .c02 import stop_fault
from .common import *  # noqa

CASES = {"quick": 600, "thorough": 10000}
RULE = ("evaluation = one successful run of a history in which modules outside the imports of one module are added, removed, edited or "
        "replaced by strangers with similar names (some runs hit by kills or I/O errors), the artefacts of that module compared with a "
        "run on nothing but the module and its imports; non-trivial = the project of the run has another module; distinct by the project "
        "and the steps before")


def names(p):
    return [m["name"] for m in p["modules"]]


def sub(p, keep):
    return dict(p, modules=[m for m in p["modules"] if m["name"] in keep])


def closure(p, f):
    return mutate.reach(p, f) | {f}


def stranger(rng, p, f, i):
    """A module nobody imports, full of names that resemble those of module f."""
    m = mutate.find(p, f)
    used = set(gen.all_defs(p))
    base = f.split("-")[0]
    name = next(n for n in (rng.choice([f"{base}-{rng.choice(['x', 'test', 'old', 'app2'])}", f"a{base}", f"{f}{rng.randrange(10, 99)}", f"zz{i}", f"aa{i}"])
                            for _ in range(100)) if n not in names(p))
    defs, imports = [], []

    def like(n):
        for _ in range(60):
            c = rng.choice([n + rng.choice(["-x", "x", "-2", "-copy", "-t"]), n[:1] + n[1:].replace("-", ""), n.split("-")[0] + "-zz", n[:-1] or n])
            if c not in used and c[:1].isupper() and c[-1] != "-" and c not in gen.POSIX and c not in gen.FLT and len(c) > 1 and c.upper() not in ("INTEGER", "REAL", "NULL", "BOOLEAN"):
                used.add(c)
                return c
        return None
    own = rng.sample(m["defs"], min(len(m["defs"]), rng.choice([1, 2, 4])))
    for d in own:
        n = like(d["name"])
        if n is None:
            continue
        if d["k"] == "enum":
            items = [{"key": x["key"], "pos": None} for x in d["items"]]
            rng.shuffle(items)
            defs.append({"k": "enum", "name": n, "items": items[:rng.randrange(1, len(items) + 1)]})
        elif d["k"] == "seq" and not d.get("hdr"):
            keys = [x["key"] for x in d["fields"] if not x.get("wc")] or ["alone"]
            defs.append({"k": "seq", "name": n, "comment": "stranger", "fields": [
                {"key": k, "t": {"b": "INTEGER", "lo": 0, "hi": rng.choice([255, 65535])}, "comment": "other", "unit": "zz"} for k in keys]})
        elif d["k"] == "simple":
            defs.append({"k": "simple", "name": n, "t": {"b": "INTEGER", "lo": 0, "hi": rng.choice([7, 255, 4095, 65535])}})
    if rng.random() < 0.5:
        # uses something of f
        c = [d for d in m["defs"] if d["k"] in ("seq", "enum") and not d.get("hdr") and not d.get("msg") and not d.get("stored")
             and not any(x.get("wc") for x in d.get("fields", ()))]
        n = like("User")
        if c and n:
            d = rng.choice(c)
            imports.append({"from": f, "types": [d["name"]]})
            fld = {"key": "borrowed", "t": {"b": "REF", "name": d["name"]}}
            num = [x for x in d.get("fields", ()) if x["t"]["b"] == "INTEGER" and x["t"]["lo"] >= 0 and x["t"]["hi"] in (255, 65535)]
            if num and p["flavour"] == "stored":
                fld["wc"] = [{"key": x["key"], "v": x["t"]["hi"]} for x in num[:rng.randrange(1, len(num) + 1)]]
            defs.append({"k": "seq", "name": n, "fields": [fld]})
    if not defs:
        defs.append({"k": "enum", "name": like("Stranger") or "Strange-one", "items": [{"key": "s-one", "pos": None}, {"key": "s-two", "pos": None}]})
    return {"name": name, "file": f"{name.replace('-', '_')}.asn", "imports": imports, "defs": defs, "comment": rng.choice([None, "unrelated"])}


def body(name, data):
    """Without whole-line // comments: the notes there name every module that
    uses a simple type, and are meant to."""
    if name[-2:] in (".h", ".c"):
        return b"\n".join(x for x in data.split(b"\n") if not x.startswith(b"//"))
    return data


def version(rng, p, f, i):
    cl = closure(p, f)
    keep = set(cl)
    others = [n for n in names(p) if n not in cl]
    for n in rng.sample(others, len(others)):
        if rng.random() < 0.5:
            keep |= closure(p, n)
    q = sub(p, keep)
    text = gen.render(sub(p, cl))
    if len(keep) > len(cl):
        for _ in range(rng.choice([0, 1, 2, 4])):
            e = gen.edit(rng, q)
            if gen.render(sub(e, cl)) == text:
                q = e
    q = copy.deepcopy(q)
    for j in range(rng.choice([0, 0, 1, 1, 2])):
        q["modules"].insert(rng.randrange(len(q["modules"]) + 1), stranger(rng, q, f, 10 * i + j))
    return q


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng, modules=rng.choice([None, 2, 3, 4, 5]))
    f = o["module"] if o["cmd"] == "cosmos" else rng.choice(names(p))
    steps = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        s = {"p": version(rng, p, f, i), "faults": [], "hashseed": rng.choice([0, 0, 0, 1])}
        if i and rng.random() < 0.3:
            s["faults"] = [stop_fault(rng)]
        steps.append(s)
    return {"project": sub(p, closure(p, f)), "opts": o, "focus": f, "steps": steps, "out": rng.choice(["out", "gen/out"]),
            "wipe": rng.random() < 0.5, "pristine": True}


def sample(case):
    return {"command": case["opts"]["cmd"], "module": case["focus"], "with its imports": names(case["project"]),
            "projects": [names(s["p"]) for s in case["steps"]], "faults": [s["faults"] for s in case["steps"]]}


def shrink(case):
    st = case["steps"]
    for sub_ in lib.shrink_list(st, 1):
        yield with_(case, steps=sub_)
    for i, s in enumerate(st):
        if s["faults"]:
            yield with_(case, steps=st[:i] + [with_(s, faults=[])] + st[i + 1:])
    cl = set(names(case["project"]))
    for i, s in enumerate(st):
        for m in s["p"]["modules"]:
            if m["name"] in cl:
                continue
            q = dict(s["p"], modules=[x for x in s["p"]["modules"] if x is not m])
            yield with_(case, steps=st[:i] + [with_(s, p=q)] + st[i + 1:], pristine=False)
            for k in range(len(m["defs"])):
                q = dict(s["p"], modules=[x if x is not m else dict(m, defs=m["defs"][:k] + m["defs"][k + 1:]) for x in s["p"]["modules"]])
                yield with_(case, steps=st[:i] + [with_(s, p=q)] + st[i + 1:], pristine=False)


def run_case(host, case, stats):
    o, f, out = case["opts"], case["focus"], case["out"]
    _, ref = lib.baseline(host, case["project"], o, out)
    mine = set(gen.artefacts(sub(case["project"], {f}), o["cmd"], o))
    want = {k: body(k, v) for k, v in ref.items() if k in mine}
    if set(want) != mine:
        raise lib.Discard("artefacts of the module alone are not complete")
    host.fresh()
    trace = []
    for n, s in enumerate(case["steps"]):
        if case["wipe"] and n:
            import shutil
            shutil.rmtree(host.p("work/" + out), ignore_errors=True)
        lib.put_project(host, s["p"])
        pr = host.run(gen.argv(s["p"], o, out), faults=s["faults"], hashseed=s["hashseed"])
        trace.append((names(s["p"]), pr.code(), lib.fire_sig(pr)))
        where = f"{o['cmd']} of {f}: {trace}"
        if pr.ended != "exit" or pr.code() != 0:
            if pr.fired:
                stats.probe("run ended by a fault")
                continue
            if not case.get("pristine"):
                raise lib.Discard("project not accepted")
            raise Violation("other-modules-make-the-run-fail", f"{where}: {(pr.out() + pr.err())[-200:]}")
        stats.evaluations += 1
        if len(s["p"]["modules"]) > len(case["project"]["modules"]):
            stats.sig(o["cmd"], f, gen.render(s["p"]), trace)
            stats.probe("other modules present")
        got = {k: host.get(f"work/{out}/{k}") for k in mine}
        got = {k: body(k, v) for k, v in got.items() if v is not None}
        if got != want:
            raise Violation("artefact-depends-on-other-modules", f"{where}: {lib.describe(got, want)}")
