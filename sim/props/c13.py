"""C13  stored data read by flight code has the values declared in the model."""
from .. import gen, lib, mission
from ..lib import Violation, with_
from . import regen
from .common import *  # noqa

CASES = {"quick": 900, "thorough": 16000}
RULE = ("evaluation = one stored object (binary file of either byte order read into the struct of its header, or variable of a "
        "generated C source) read by compiled flight code, every declared component compared with the declared value; files are "
        "generated after a seeded history of edits, killed and failed runs; non-trivial = the object has at least one declared "
        "component; distinct by definition, values and kind of storage")
REAL = REAL + ["gcc 13 compiles the generated headers and sources into the flight software that reads the data"]
STUB = STUB + ["a big-endian flight computer is modelled with scalar_storage_order"]


def gen_case(rng, tier, host):
    if rng.random() < 0.75:
        p = gen.project(rng, "stored")
        kind = rng.choice(["binary", "binary", "binary", "c"])
    else:
        p = gen.project(rng, "tlm")
        kind = "c"
    return {"hist": regen.pick_history(rng, p, 2), "kind": kind, "first": rng.choice(["little-endian", "big-endian"])}


def sample(case):
    h = case["hist"]
    return {"kind": case["kind"], "modules": [m["name"] for m in h["versions"][h["final"]]["modules"]], "history": h["steps"]}


def shrink(case):
    yield from regen.shrink(case)


def declared(ls, name):
    """Components that the definition of the object itself gives a value."""
    return [le for le in ls if le["fixed"] is not None and le["owner"] == name]


def run_case(host, case, stats):
    if case["kind"] == "c":
        jobs = lambda p: [({"cmd": "c"}, "data")]
        check(host, case, jobs, "c", "data", stats)
        return
    orders = ["little-endian", "big-endian"]
    if case["first"] == "big-endian":
        orders.reverse()
    both = lambda p: [({"cmd": "binary", "endianness": x}, "data") for x in orders]
    for e in orders:
        # earlier runs wrote data of either byte order into the same directory
        jobs = lambda p: [({"cmd": "binary", "endianness": e}, "data")]
        check(host, case, jobs, e, "data", stats, both)


def check(host, case, jobs, kind, out, stats, earlier=None):
    p, trace = regen.play(host, case, jobs, stats, earlier)
    defs = gen.all_defs(p)
    headers, sources, objects = [], [], []
    for m in p["modules"]:
        n = mission.c(m["name"])
        headers.append(n + ".h")
        if kind == "c":
            sources.append(n + ".c")
        for d in m["defs"]:
            if d["k"] == "seq" and any(f.get("wc") for f in d["fields"]):
                ls = declared(mission.leaves(defs, d["name"]), d["name"])
                v = mission.low(mission.c(d["name"]))
                objects.append((d["name"], v if kind == "c" else None, None if kind == "c" else v + ".bin", ls))
    try:
        mission.compile_alone(host, "work/" + out, headers + sources)
        got = mission.reader(host, "work/" + out, headers, sources, objects, kind == "big-endian")
    except mission.BuildError as e:
        raise Violation("generated-code-does-not-compile" if "error" in str(e) else "stored-data-unreadable",
                        f"{kind} after {trace}: {str(e)[:500]}")
    if len(got) != len(objects):
        raise Violation("stored-data-unreadable", f"{kind}: {len(got)} of {len(objects)} objects read")
    for (name, var, path, ls), g in zip(objects, got):
        stats.evaluations += 1
        stats.probe(f"objects read ({kind})")
        if ls:
            stats.sig(kind, name, [(le["path"], le["kind"], le["bits"], le["fixed"]) for le in ls])
        if path:
            size = len(host.get(f"work/{out}/{path}") or b"")
            if g[0] != str(size):
                raise Violation("stored-data-size-differs", f"{kind} {path}: file has {size} bytes, {' '.join(g[:4])}")
        for le, x in zip(ls, g[1:]):
            w = mission.expect_bits(le, le["fixed"])
            if int(x) != w:
                raise Violation("stored-value-differs-from-model", f"{kind} {name}.{'.'.join(le['path'])} ({le['kind']}, {le['bits']} "
                                f"bits): read bit pattern {int(x):#x}, declared {le['fixed']} = {w:#x}")
            stats.probe("components compared")
