"""C09  every invocation ends."""
import random as _random

from .. import gen, lib, mutate
from ..host import FAIL, FAIL_AFTER, SHORT
from ..lib import E, Violation, with_
from .common import *  # noqa

CASES = {"quick": 840, "thorough": 14000}
RULE = ("evaluation = one run under a budget of interpreter steps (calls, jumps and branches: 2,000,000 + 600,000 per file + 600 "
        "(250 for wide ones) per input byte, about four times what valid projects of that size need) and of 4000 system calls; inputs: valid and "
        "mutated projects, random module and type graphs with cycles, deep chains, layered diamonds of modules and of types, constraints nested up to 26 levels, up to 1000 definitions, fields or items, cut and spliced texts; "
        "transient and persistent I/O faults; non-trivial = inputs not a plain valid project or a fault fired; distinct by "
        "inputs and faults")
STUB = STUB + ["interpreter steps are counted with sys.monitoring inside the process"]
CMDS = ["cfs", "c", "binary", "cosmos"]


def graph(rng):
    """Random modules importing each other and types using each other."""
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
    acyclic = rng.random() < 0.25
    names = [f"m{i}{rng.choice('abc')}" for i in range(n)]
    per = [rng.choice([1, 2, 3]) for _ in range(n)]
    types = [[f"T{i}-{j}" for j in range(per[i])] for i in range(n)]
    imp = {i: set() for i in range(n)}
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        a, b = rng.randrange(n), rng.randrange(n)
        if acyclic and a <= b:
            continue
        if a != b or rng.random() < 0.2:
            imp[a].add(b)
    if not acyclic and n > 1 and rng.random() < 0.5:
        ring = rng.sample(range(n), rng.randrange(2, n + 1))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            imp[a].add(b)
    mods = []
    for i in range(n):
        used = {b: set() for b in imp[i]}

        def target(j):
            """A type that type j of module i may refer to."""
            c = []
            for b in list(imp[i]) + [i]:
                for k, t in enumerate(types[b]):
                    if acyclic and b == i and k >= j:
                        continue
                    c.append((b, t))
            if not c:
                return None
            b, t = rng.choice(c)
            if b != i:
                used[b].add(t)
            return t

        defs = []
        for j, t in enumerate(types[i]):
            k = rng.choice(["seq", "seq", "seq", "choice", "alias", "enum", "int"])
            ref = target(j)
            if k == "enum" or ref is None:
                defs.append({"k": "enum", "name": t, "items": [{"key": f"e{i}-{j}-a", "pos": None}, {"key": f"e{i}-{j}-b", "pos": None}]})
            elif k == "int":
                defs.append({"k": "simple", "name": t, "t": {"b": "INTEGER", "lo": 0, "hi": 255}})
            elif k == "alias":
                r = {"b": "REF", "name": ref}
                defs.append({"k": "simple", "name": t, "t": r})
            else:
                fs = []
                for f in range(rng.choice([1, 1, 2, 3])):
                    r = {"b": "REF", "name": target(j)}
                    if rng.random() < 0.2:
                        r = {"b": "ARR", "n": 2, "of": r}
                    if rng.random() < 0.3:
                        r = {"b": "INTEGER", "lo": 0, "hi": 15}
                    fs.append({"key": f"f{f}", "t": r})
                defs.append({"k": k, "name": t, "fields": fs})
        rng.shuffle(defs)
        mods.append({"name": names[i], "file": f"{names[i]}.asn", "comment": None, "icomment": None, "defs": defs,
                     "imports": [{"from": names[b], "types": sorted(u) or [types[b][0]]} for b, u in used.items()]})
    rng.shuffle(mods)
    return {"flavour": "tlm", "modules": mods}


def layers(n, both):
    ms = []
    for i in range(n):
        for s in "ab":
            ims = [] if i == 0 else [{"from": f"m{i-1}{t}", "types": [f"T{i-1}{t}"]} for t in "ab"]
            if i == 0:
                fs = [{"key": "x", "t": {"b": "INTEGER", "lo": 0, "hi": 255}}]
            else:
                fs = [{"key": f"k{t}", "t": {"b": "REF", "name": f"T{i-1}{t}"}} for t in ("ab" if both else "a")]
            ms.append({"name": f"m{i}{s}", "file": f"m{i}{s}.asn", "comment": None, "imports": ims,
                       "defs": [{"k": "seq", "name": f"T{i}{s}", "comment": None, "fields": fs}]})
    return {"flavour": "tlm", "modules": ms}


def diamonds(rng, n):
    """Types that use each type of the layer below, in one module."""
    w = rng.choice([1, 2, 3])
    arr, order = rng.random() < 0.3, rng.choice(["up", "down", "mixed"])
    ds = []
    for i in range(n):
        for s in "abc"[:w]:
            fs = [{"key": "x", "t": {"b": "INTEGER", "lo": 0, "hi": 255}}]
            if i:
                fs = [{"key": f"k{j}", "t": {"b": "REF", "name": f"T{i-1}{'abc'[j % w]}"}} for j in range(max(2, w))]
                if arr:
                    fs[-1]["t"] = {"b": "ARR", "n": 2, "of": fs[-1]["t"]}
            ds.append({"k": "seq", "name": f"T{i}{s}", "comment": None, "fields": fs})
    if order == "down":
        ds.reverse()
    elif order == "mixed":
        rng.shuffle(ds)
    return {"flavour": "tlm", "modules": [{"name": "m", "file": "m.asn", "comment": None, "imports": [], "defs": ds}]}


def chain(n, modules):
    ms = []
    defs = []
    for i in range(n):
        fs = [{"key": "x", "t": {"b": "INTEGER", "lo": 0, "hi": 255}}] if i == 0 else [
            {"key": "k", "t": {"b": "REF", "name": f"T{i-1}"}}]
        d = {"k": "seq", "name": f"T{i}", "comment": None, "fields": fs}
        if modules:
            ms.append({"name": f"m{i}", "file": f"m{i}.asn", "comment": None, "defs": [d],
                       "imports": [] if i == 0 else [{"from": f"m{i-1}", "types": [f"T{i-1}"]}]})
        else:
            defs.insert(0, d)
    if not modules:
        ms = [{"name": "m", "file": "m.asn", "comment": None, "imports": [], "defs": defs}]
    return {"flavour": "tlm", "modules": ms}


def wide(rng, n, kind):
    """Many definitions, fields or items of one kind, or many modules."""
    u = {"b": "INTEGER", "lo": 0, "hi": 255}
    seq = lambda i, fs: {"k": "seq", "name": f"T{i}", "comment": None, "fields": fs}
    if kind == "modules":
        star = rng.random() < 0.5
        ms = []
        for i in range(max(2, n // 40)):
            im = [{"from": "m0", "types": ["T0"]}] if i and star else []
            ms.append({"name": f"m{i}", "file": f"m{i}.asn", "comment": None, "imports": im, "defs": [
                seq(i, [{"key": "x", "t": {"b": "REF", "name": "T0"} if im else u}])]})
        return {"flavour": "tlm", "modules": ms}
    ds = []
    if kind == "fields":
        ds = [seq(0, [{"key": f"x{i}", "t": rng.choice([u, {"b": "BOOLEAN"}, {"b": "INTEGER", "lo": 0, "hi": 7}])} for i in range(n)])]
    elif kind == "items":
        ds = [{"k": "enum", "name": "E0", "items": [{"key": f"e{i}", "pos": None} for i in range(n)]},
              seq(0, [{"key": "x", "t": {"b": "REF", "name": "E0"}}])]
    else:
        for i in range(n):
            k = rng.choice(["seq", "simple", "enum", "user"]) if kind == "mixed" else kind
            if k == "simple":
                ds.append({"k": "simple", "name": f"S{i}", "t": u})
            elif k == "enum":
                ds.append({"k": "enum", "name": f"E{i}", "items": [{"key": f"e{i}-{j}", "pos": None} for j in range(2)]})
            elif k == "user" and ds:
                ds.append(seq(i, [{"key": f"f{j}", "t": {"b": "REF", "name": rng.choice(ds)["name"]}} for j in range(2)]))
            else:
                ds.append(seq(i, [{"key": "x", "t": u}]))
        ds.append(seq(n, [{"key": "x", "t": u}]))
        if rng.random() < 0.5:
            rng.shuffle(ds)
    return {"flavour": "tlm", "modules": [{"name": "m", "file": "m.asn", "comment": None, "imports": [], "defs": ds}]}


def deep_wc(n, width):
    """A message whose constraint reaches n types down."""
    ds = chain(n, False)["modules"][0]["defs"]
    for d in ds:
        if width > 1:
            d["fields"].insert(0, {"key": "p", "t": {"b": "INTEGER", "lo": 0, "hi": 255}})
    wc = [{"key": "x", "v": 1}]
    for i in range(n - 1):
        wc = [{"key": "k", "v": {"wc": wc}}]
        if width > 1:
            wc.insert(0, {"key": "p", "v": 7})
    ds.append({"k": "seq", "name": "Msg", "comment": None, "fields": [{"key": "d", "t": {"b": "REF", "name": f"T{n-1}"}, "wc": wc}]})
    return {"flavour": "stored", "modules": [{"name": "m", "file": "m.asn", "comment": None, "imports": [], "defs": ds}]}


def splice(rng, texts):
    """Cut, repeat or splice the text of one file."""
    f = rng.choice(sorted(texts))
    s = texts[f]
    a, b = sorted((rng.randrange(len(s)), rng.randrange(len(s))))
    x = rng.random()
    if x < 0.3:
        s = s[:a]
    elif x < 0.5:
        s = s[:a] + s[b:]
    elif x < 0.65:
        s = s[:b] + s[a:b] * rng.choice([1, 3, 30]) + s[b:]
    elif x < 0.8:
        s = s[:a] + rng.choice(["{", "}", "(", ")", "--", ",", "::=", " ", "((((((((", "\t\n" * 300, "-" * 500, "a" * 3000,
                                "WITH COMPONENTS {", "[", "\u20ac", "\0"]) * rng.choice([1, 1, 5]) + s[a:]
    else:
        w = s.split(" ")
        i, j = rng.randrange(len(w)), rng.randrange(len(w))
        w[i], w[j] = w[j], w[i]
        s = " ".join(w)
    texts[f] = s


def pick_faults(rng):
    x = rng.random()
    if x < 0.5:
        return []
    if x < 0.8:
        op = rng.choice(["stat", "openr", "read", "fstat", "mkdir", "openw", "write", "close", "fsync", "access", "rename",
                         "unlink"])
        errs = [e for e in lib.ERRS.get(op, lib.OTHER_ERRS)] + [E.EAGAIN, E.EBUSY, E.EEXIST]
        return [{"t": "rule", "ops": [op], "path": "", "skip": rng.choice([0, 0, 0, 1, 2, 5]), "count": rng.choice([-1, -1, -1, 1, 3]),
                 "v": FAIL_AFTER if op == "close" else FAIL, "a": rng.choice(errs)}]
    if x < 0.9:
        return [{"t": "diskfull", "bytes": rng.choice([0, 100, 3000]), "errno": rng.choice([E.ENOSPC, E.EDQUOT])}]
    return [{"t": "rule", "ops": ["read", "write"], "path": "", "skip": 0, "count": rng.choice([5, 60]), "v": SHORT, "frac": 0.0},
            {"t": "rule", "ops": ["openw"], "path": "", "skip": rng.randrange(3), "count": -1, "v": FAIL,
             "a": rng.choice([E.EACCES, E.EMFILE, E.ETXTBSY])}]


def ring(rng):
    """Modules that import each other in one circle, whose types need not."""
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 13])
    tail = rng.choice([0, 0, 1, 3])
    mods = []
    for i in range(n + tail):
        to = (i + 1) % n if i < n else rng.randrange(i)
        defs = [{"k": "enum", "name": f"T{i}-0", "items": [{"key": f"e{i}-a", "pos": None}, {"key": f"e{i}-b", "pos": None}]},
                {"k": "seq", "name": f"T{i}-1", "fields": [{"key": "f0", "t": {"b": "INTEGER", "lo": 0, "hi": 255}},
                                                           {"key": "f1", "t": {"b": "REF", "name": f"T{to}-{rng.choice([0, 0, 1])}"}}]}]
        mods.append({"name": f"m{i}", "file": f"m{i}.asn", "imports": [{"from": f"m{to}", "types": sorted({defs[1]["fields"][1]["t"]["name"]})}],
                     "defs": defs})
    rng.shuffle(mods)
    return {"modules": mods}


def gen_case(rng, tier, host):
    x = rng.random()
    muts = []
    kind = "valid"
    if x < 0.38:
        kind = "graph"
        p = graph(rng) if x > 0.05 else ring(rng)
        cmd = rng.choice(CMDS)
    elif x < 0.42:
        kind = "layers"
        p = layers(rng.choice([3, 5, 17, 25]) if rng.random() < 0.75 else 5, False)
        cmd = rng.choice(["cosmos", "cosmos", "cfs"])
    elif x < 0.45:
        kind = "diamonds"
        p = diamonds(rng, rng.choice([4, 14, 20, 26]))
        cmd = rng.choice(["cfs", "c", "binary"])
    elif x < 0.49:
        kind = "chain"
        ms = rng.random() < 0.5
        p = chain(rng.choice([4, 10, 14]) if ms else rng.choice([10, 60, 200]), ms)
        cmd = rng.choice(CMDS)
    elif x < 0.53:
        kind = "deep-wc"
        p = deep_wc(rng.choice([2, 6, 14, 20, 26]), rng.choice([1, 2]))
        cmd = rng.choice(CMDS)
    elif x < 0.55:
        kind = "wide"
        sort = rng.choice(["seq", "simple", "enum", "mixed", "mixed", "fields", "items", "modules"])
        p = wide(rng, rng.choice([100, 400, 1000]), sort)
        cmd = rng.choice(CMDS[:3] if sort == "mixed" else CMDS)
    else:
        p, o = lib.pick_run(rng)
        cmd = o["cmd"]
        if x > 0.63:
            kind = "mutated"
            k = rng.choice(["circular-imports", "self-import", "circular-types", "self-type", "circular-array", "circular-chain", "circular-chain", None, None, None])
            m = mutate.pick(rng, p, o, k)
            if m:
                muts = [m]
    if kind in ("graph", "layers", "chain", "diamonds", "deep-wc", "wide"):
        o = {"cmd": cmd}
        if cmd == "cosmos":
            m = rng.choice(p["modules"]) if kind == "graph" else p["modules"][-2 if kind == "layers" else -1]
            ts = [d["name"] for d in m["defs"]]
            o.update(module=m["name"], messages=[ts[-1] if kind == "deep-wc" else [d["name"] for d in m["defs"] if d["k"] == "seq"][0] if kind == "wide" else ts[0]] if kind != "graph" else rng.sample(ts, rng.randrange(1, len(ts) + 1)),
                     target="t")
        if cmd == "binary":
            o["endianness"] = rng.choice(["little-endian", "big-endian"])
    return {"kind": kind, "project": p, "opts": o, "muts": muts, "splice": rng.randrange(1 << 30) if rng.random() < 0.2 else None,
            "trials": [{"faults": f} for f in ([], pick_faults(rng))]}


def sample(case):
    return {"kind": case["kind"], "command": case["opts"]["cmd"], "modules": len(case["project"]["modules"]),
            "mutations": case["muts"], "faults": [t["faults"] for t in case["trials"]]}


def shrink(case):
    yield from lib.default_shrink(case)
    if case["splice"] is not None:
        yield with_(case, splice=None)


def run_case(host, case, stats):
    p, o = case["project"], case["opts"]
    try:
        texts, files, modules, faults = mutate.apply(p, o, case["muts"])
    except mutate.Inapplicable:
        raise lib.Discard("mutation does not apply")
    if case["splice"] is not None:
        r = _random.Random(case["splice"])
        for _ in range(r.choice([1, 1, 2, 4])):
            if texts and all(isinstance(t, str) and t for t in texts.values()):
                splice(r, texts)
    size = sum(len(t) for t in texts.values() if isinstance(t, str))
    budget = 2_000_000 + 600_000 * len(files) + (250 if case["kind"] == "wide" else 600) * size
    for n, t in enumerate(case["trials"]):
        if n and not t["faults"]:
            continue
        host.fresh()
        mutate.put(host, texts)
        pr = host.run(gen.argv(p, o, "out", files=files, modules=modules), faults=list(faults) + list(t["faults"]), steps=budget)
        stats.evaluations += 1
        if case["kind"] != "valid" or case["splice"] is not None or pr.fired:
            stats.sig(texts, t["faults"], o)
        stats.probe(f"{case['kind']}: " + ("accepted" if pr.code() == 0 else "rejected"))
        if pr.fired:
            stats.probe("faults fired")
        what = f"{o['cmd']} ({case['kind']}, {len(files)} files, {size} bytes, {len(t['faults'])} faults)"
        if any(m[0] == "budget" for m in pr.marks):
            raise Violation("step-budget-exceeded", f"{what}: more than {budget} interpreter steps", n)
        if pr.ended == "runaway":
            raise Violation("endless-system-calls", f"{what}: {pr.k} system calls, last {pr.ops[-1][:2]}", n)
        if pr.ended != "exit":
            raise Violation("does-not-end", f"{what}: {pr.ended} after {pr.k} system calls", n)
