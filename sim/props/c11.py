"""C11  flight software and ground station agree on every telemetry value."""
import random

from .. import gen, lib, mission
from ..lib import Violation, with_
from . import regen
from .common import *  # noqa

CASES = {"quick": 640, "thorough": 16000}
RULE = ("evaluation = one message packet filled by flight code compiled from the generated headers, sent over a link that drops, "
        "duplicates, delays and corrupts, decoded by the ground station from the generated COSMOS file, every item compared with "
        "the value written and with the model; models are generated after a seeded history of edits, killed and failed runs; "
        "non-trivial = the packet arrived intact and carries at least one item that is not part of the header; distinct by "
        "message definition and values")
REAL = REAL + ["gcc 13 compiles the generated headers into the flight software that fills the structs"]
STUB = STUB + ["the flight computer is big-endian (scalar_storage_order), the link and the COSMOS telemetry decoder are models "
               "written from the COSMOS configuration format"]
ASSUMPTIONS = ASSUMPTIONS + ["gcc's scalar_storage_order reproduces the layout of a big-endian target (bit fields from the most "
                             "significant bit)"]


def gen_case(rng, tier, host):
    p = gen.project(rng, "tlm" if rng.random() < 0.88 else "stored")
    n = rng.choice([4, 6, 10])
    return {"hist": regen.pick_history(rng, p, 3), "vseed": rng.randrange(1 << 30), "count": n,
            "link": mission.pick_events(rng, 12), "same_dir": rng.random() < 0.3}


def sample(case):
    h = case["hist"]
    return {"modules": [m["name"] for m in h["versions"][h["final"]]["modules"]], "versions": len(h["versions"]),
            "history": h["steps"], "link": case["link"][:3]}


def shrink(case):
    yield from regen.shrink(case)
    if any(case["link"]):
        yield with_(case, link=[{}])
    if case["count"] > 1:
        yield with_(case, count=1)
        yield with_(case, count=case["count"] // 2)


def jobs(case):
    g = "gen" if case["same_dir"] else "ground"
    f = "gen" if case["same_dir"] else "flight"

    def j(p):
        return [({"cmd": "cfs"}, f)] + [({"cmd": "cosmos", "module": m, "messages": ns, "target": f"t-{m}"}, g)
                                        for m, ns in gen.messages(p)]
    return j, f, g


def run_case(host, case, stats):
    J, fdir, gdir = jobs(case)
    p, trace = regen.play(host, case, J, stats)
    defs = gen.all_defs(p)
    headers = [mission.c(m["name"]) + "_msg.h" for m in p["modules"]]
    rng = random.Random(case["vseed"])
    msgs = [(m, n, mission.leaves(defs, n)) for m, ns in gen.messages(p) for n in ns]
    sends = []
    for k in range(max(case["count"], min(len(msgs), 40))):
        m, n, ls = msgs[k % len(msgs)]
        sends.append((n, ls, [mission.value(rng, le) for le in ls], rng.choice([0, 255, 165])))
    try:
        mission.compile_alone(host, "work/" + fdir, headers)
        order = rng.sample(headers, len(headers))
        packets, _ = mission.flight(host, "work/" + fdir, order, sends)
    except mission.BuildError as e:
        raise Violation("header-does-not-compile", f"after {trace}: {str(e)[:500]}")
    ground = {}
    for m, ns in gen.messages(p):
        text = (host.get(f"work/{gdir}/t-{m}.txt") or b"").decode()
        try:
            ps = mission.parse_cosmos(text)
        except mission.Malformed as e:
            raise Violation("definition-not-valid-cosmos", f"t-{m}.txt: {e}")
        if [x["name"] for x in ps] != ns:
            raise Violation("packets-missing-on-ground", f"t-{m}.txt defines {[x['name'] for x in ps]}, requested {ns}")
        for x in ps:
            ground[x["name"]] = x
    for m, n, ls in msgs:
        check_definition(n, defs[n], ls, ground[n])
        stats.probe("definitions compared")
    for (n, ls, vals, _), pk in zip(sends, packets):
        if 8 * len(pk) != ground[n]["bits"]:
            raise Violation("packet-size-differs", f"{n}: {8 * len(pk)} bits in flight, {ground[n]['bits']} on ground")
    seen = 0
    for e in case["link"]:
        for k in e:
            host.note_fault("link-" + k)
    for i, data, intact in mission.transmit(packets, case["link"]):
        n, ls, vals, _ = sends[i]
        if not intact:
            stats.probe("corrupted packet discarded")
            continue
        stats.evaluations += 1
        seen += 1
        stats.sig(n, [(x["path"], x["kind"], x["bits"], x["n"], x["le"]) for x in ls], vals)
        for le, v, it in zip(ls, vals, ground[n]["items"]):
            got = mission.decode(it, data)
            want = [mission.number(le, x) for x in v] if isinstance(v, list) else v if le["kind"] == "str" else mission.number(le, v)
            if got != want:
                raise Violation("value-differs-on-ground", f"{n}.{'.'.join(le['path'])} ({le['kind']}, {le['bits']} bits, "
                                f"array {le['n']}, little endian {le['le']}): sent {v!r}, decoded {got!r}")
            stats.probe("values compared")
    if not seen:
        stats.evaluations += 1
        stats.probe("nothing arrived")


def check_definition(n, d, ls, pkt):
    """The ground definition against the model."""
    want = [le["key"] for le in ls]
    got = [it["name"] for it in pkt["items"]]
    if got != want:
        raise Violation("items-differ-from-model", f"{n}: items {got[:12]}, model {want[:12]}")
    if not pkt["big"]:
        raise Violation("byte-order-differs-from-model", f"{n}: packet is not BIG_ENDIAN")
    if pkt["desc"] != (d.get("comment") or ""):
        raise Violation("description-differs-from-model", f"{n}: {pkt['desc']!r} instead of {d.get('comment')!r}")
    for le, it in zip(ls, pkt["items"]):
        w = f"{n}.{'.'.join(le['path'])}"
        if it["states"] != le.get("states", {}):
            raise Violation("states-differ-from-model", f"{w}: {it['states']} instead of {le.get('states')}")
        if it["unit"] != ((le["unit"], le["unit"]) if le["unit"] else None):
            raise Violation("unit-differs-from-model", f"{w}: {it['unit']} instead of {le['unit']!r}")
        if it["desc"] != le["comment"]:
            raise Violation("description-differs-from-model", f"{w}: {it['desc']!r} instead of {le['comment']!r}")
        if it["big"] == le["le"]:
            raise Violation("byte-order-differs-from-model", f"{w}: little endian {not it['big']} instead of {le['le']}")
        if le["kind"] == "float":
            a, b = (mission.FLT_MIN, mission.FLT_MAX) if le["bits"] == 32 else (-mission.DBL, mission.DBL)
            lim = (le["lo"], le["lo"], le["hi"], le["hi"]) if le["lo"] > a or le["hi"] < b else None
            if it["limits"] != lim:
                raise Violation("limits-differ-from-model", f"{w}: {it['limits']} instead of {lim}")
        if le["n"] is None:
            v = le["fixed"]
            if v is None:
                if it["id"] is not None:
                    raise Violation("fixed-value-not-in-model", f"{w}: {it['id']} shown, none declared")
            else:
                v = float(v["f"]) if isinstance(v, dict) else int(v)
                if it["id"] is None or mission.id_value(it) != v:
                    raise Violation("fixed-value-differs-from-model", f"{w}: {it['id']} instead of {v}")
