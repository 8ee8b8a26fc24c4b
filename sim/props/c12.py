"""C12  messages are identified by the header values declared in the model."""
import random

from .. import gen, lib, mission
from ..lib import Violation, with_
from . import regen
from .c11 import jobs
from .common import *  # noqa

CASES = {"quick": 640, "thorough": 16000}
RULE = ("evaluation = one packet arriving at the ground station (possibly with flipped header bits) that is identified with the ID "
        "items of all generated COSMOS files, compared with the fixed values declared in the model, and one message id or header "
        "constant compiled into flight code; non-trivial = the packet carries the fixed values of at least one message or was "
        "corrupted in the header; distinct by declared headers and received header bytes")
REAL = REAL + ["gcc 13 compiles the generated headers and constants into the flight software"]
STUB = STUB + ["the flight computer is big-endian (scalar_storage_order), the link and the COSMOS packet identification are models "
               "written from the COSMOS configuration format"]


def gen_case(rng, tier, host):
    p = gen.project(rng, "tlm")
    return {"hist": regen.pick_history(rng, p, 3), "vseed": rng.randrange(1 << 30), "count": rng.choice([4, 8, 12]),
            "link": mission.pick_events(rng, 12, True, 56), "same_dir": rng.random() < 0.3}


def sample(case):
    h = case["hist"]
    return {"messages": gen.messages(h["versions"][h["final"]]), "history": h["steps"], "link": case["link"][:3]}


def shrink(case):
    yield from regen.shrink(case)
    if any(case["link"]):
        yield with_(case, link=[{}])
    if case["count"] > 1:
        yield with_(case, count=1)
        yield with_(case, count=case["count"] // 2)


def run_case(host, case, stats):
    J, fdir, gdir = jobs(case)
    p, trace = regen.play(host, case, J, stats)
    defs = gen.all_defs(p)
    rng = random.Random(case["vseed"])
    msgs = [(m, n, mission.leaves(defs, n)) for m, ns in gen.messages(p) for n in ns]
    macros, expect, clash = [], {}, set()
    for m, n, ls in msgs:
        mid = mission.c(n).upper() + "_MID"
        macros.append(mid)
        for le in ls:
            if le["fixed"] is not None and ("primary" not in le["path"] or le["owner"] != n):
                k = (mission.c(le["owner"]) + "_" + mission.c(le["key"])).upper()
                if k not in expect:
                    macros.append(k)
                    expect[k] = (n, le)
                elif expect[k][1]["fixed"] != le["fixed"]:
                    clash.add(k)            # two members of one type fix a component of that name
    sends = []
    for m, n, ls in msgs:
        # the packet with nothing but its fixed values: its first 16 bits are the id
        vals = [mission.value(rng, le, zero=le["fixed"] is None) for le in ls]
        sends.append((n, ls, vals, 0))
    for _ in range(case["count"]):
        m, n, ls = rng.choice(msgs)
        sends.append((n, ls, [mission.value(rng, le) for le in ls], rng.choice([0, 255])))
    names = [mission.c(m["name"]) for m in p["modules"]]
    headers = [x + "_msg.h" for x in names]
    ids = [x + "_msgids.h" for x in names]
    try:
        mission.compile_alone(host, "work/" + fdir, ids)
        packets, consts = mission.flight(host, "work/" + fdir, ids + rng.sample(headers, len(headers)), sends, macros)
    except mission.BuildError as e:
        raise Violation("header-does-not-compile", f"after {trace}: {str(e)[:500]}")
    for (m, n, ls), pk in zip(msgs, packets):
        mid = consts[mission.c(n).upper() + "_MID"]
        stats.evaluations += 1
        stats.probe("message ids compared")
        if mid is None:
            raise Violation("message-id-missing", f"{n}: no constant {mission.c(n).upper()}_MID in {ids}")
        first = int.from_bytes(pk[:2], "big")
        if mid[1] != first:
            raise Violation("message-id-differs-from-packet", f"{n}: id 0x{mid[1]:X}, a packet starts with 0x{first:04X}")
    for k, (n, le) in expect.items():
        if k in clash:
            continue
        stats.evaluations += 1
        stats.probe("header constants compared")
        if consts[k] is None:
            raise Violation("constant-missing", f"{n}: no constant {k}")
        if (consts[k][0] != float(le["fixed"]["f"]) if le["kind"] == "float" else (consts[k][1] - int(le["fixed"])) % 2**64):
            raise Violation("constant-differs-from-model", f"{k} is {consts[k][1]}, declared {le['fixed']}")
    ground = []
    for m, ns in gen.messages(p):
        text = (host.get(f"work/{gdir}/t-{m}.txt") or b"").decode()
        try:
            ground += mission.parse_cosmos(text)
        except mission.Malformed as e:
            raise Violation("definition-not-valid-cosmos", f"t-{m}.txt: {e}")
    have = {g["name"] for g in ground}
    if have != {n for _, n, _ in msgs}:
        raise Violation("packets-missing-on-ground", f"ground knows {sorted(have)}")
    model = [(n, ls) for _, n, ls in msgs]
    for e in case["link"]:
        for k in e:
            host.note_fault("link-" + k)
    ref = [g["name"] for g in ground]
    for i, data, intact in mission.transmit(packets, case["link"]):
        stats.evaluations += 1
        got = mission.identify(ground, data)
        want = [n for n in ref if n in mission.model_identify(model, data)]
        if intact and sends[i][0] not in want:
            raise lib.SimError(f"reference does not recognise its own packet {sends[i][0]}")
        stats.probe("intact packet" if intact else "corrupted header")
        stats.probe(f"identified as {min(len(want), 2)} messages")
        stats.sig([(n, [(le["key"], le["fixed"]) for le in ls if le["fixed"] is not None]) for n, ls in model], data[:12].hex())
        if got != want:
            raise Violation("packet-identified-wrongly", f"{'intact' if intact else 'corrupted'} packet of {sends[i][0]} "
                            f"({data[:12].hex()}): ground recognises {got}, declared values are those of {want}")
