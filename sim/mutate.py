"""Ways to make a consistent project inconsistent, as explicit data.

pick(rng, project, opts) -> mutation (dict) or None
apply(project, opts, mutations) -> (texts, files, modules, faults) ; raises
Inapplicable if a mutation does not fit (any more).

Every kind is one of those listed in property C06; the result is inconsistent
whatever else is in the project."""
import copy
import re

from . import gen
from .host import FAIL


class Inapplicable(Exception):
    pass


KINDS = ["missing-file", "unreadable-file", "garbled-file", "directory", "truncated", "empty-file", "duplicate-file",
         "duplicate-module", "duplicate-type", "duplicate-type-elsewhere", "import-unknown-module",
         "import-unknown-type", "unknown-type", "unknown-array-type", "unknown-simple-type", "unknown-choice-type",
         "not-imported", "unknown-wc-key", "circular-imports", "self-import", "circular-types", "self-type",
         "circular-array", "reversed-integer", "reversed-real", "reversed-simple", "posix-mismatch", "null-field",
         "null-simple", "enum-positions", "modules-missing", "modules-extra", "modules-repeated", "modules-renamed",
         "null-choice", "null-array", "reversed-choice", "reversed-array", "circular-chain", "import-from-wrong-module", "unknown-key-far",
         "too-wide-field", "too-wide-simple", "unknown-message", "unknown-packet-module"]
RICH = ["unknown-wc-key", "unknown-wc-key", "unknown-type", "import-unknown-type", "reversed-integer", "enum-positions", "circular-chain",
        "unknown-key-far", "unknown-message"]           # kinds of which one sample says little
WIDE = ["INTEGER(0..18446744073709551616)", "INTEGER(-1..9223372036854775808)", "INTEGER(-9223372036854775809..0)",
        "INTEGER(-1..18446744073709551615)", "INTEGER(0..1180591620717411303424)", "INTEGER(18446744073709551616..18446744073709551617)",
        "REAL(-1.8e308 .. 1.0)", "REAL(0.0 .. 1.0e310)", "REAL(-1.0e400 .. 1.0e400)"]
NEVER = "Zz-not-there"


def find(p, name):
    for m in p["modules"]:
        if m["name"] == name:
            return m
    raise Inapplicable


def defn(m, name):
    for d in m["defs"]:
        if d["name"] == name:
            return d
    raise Inapplicable


def at(lst, i):
    if not lst or i >= len(lst):
        raise Inapplicable
    return lst[i]


def near(rng, names, upper):
    """A name that resembles one of the given names."""
    n = rng.choice(sorted(names))
    x = rng.choice(["s", "-1", "cut", "first", "last", "rest", "twice", "pre"])
    if x == "cut":
        n = n[:-1]
    elif x == "first":
        n = n.split("-")[0]
    elif x == "last":
        n = n.split("-")[-1]
    elif x == "rest":
        n = n.partition("-")[2] or n[1:]
    elif x == "twice":
        n = f"{n}-{n.lower()}"
    elif x == "pre":
        n = f"new-{n.lower()}"
    else:
        n += x
    n = n.strip("-")
    if upper:
        n = n[:1].upper() + n[1:].lower()
    ok = (r"[A-Z][a-z\d]*(-[a-z\d]+)*" if upper else r"[a-z][a-z\d]*(-[a-z\d]+)*")
    return n if re.fullmatch(ok, n) and n not in gen.POSIX and n not in gen.FLT else None


def odd_type(rng, p, m):
    """The name of a type that module m neither defines nor imports."""
    have = gen.all_defs(p)
    seen = {d["name"] for d in m["defs"]} | {t for im in m["imports"] for t in im["types"]}
    x = rng.random()
    if x < 0.4:
        return None
    if x < 0.6:
        c = sorted(n for n in have if n not in seen and n not in gen.POSIX and n not in gen.FLT)
        return rng.choice(c) if c else None
    n = near(rng, have, True)
    return None if n in have else n


def pick(rng, p, o, kind=None):
    """A random applicable mutation of the kind."""
    for _ in range(40):
        k = kind or rng.choice(KINDS)
        m = rng.choice(p["modules"])
        mu = {"kind": k, "module": m["name"], "tag": rng.choice(["", "", rng.choice("abcdkqx") + str(rng.randrange(30))])}
        if k.startswith("modules-") and o["cmd"] == "cosmos":
            if kind:
                return None
            continue
        if k in ("unknown-message", "unknown-packet-module"):
            if o["cmd"] != "cosmos":
                if kind:
                    return None
                continue
            mu["where"] = rng.randrange(len(o["messages"]) + 1)
            # something only other modules define, or nobody
            own = {d["name"] for x in p["modules"] if x["name"] == o["module"] for d in x["defs"]}
            c = sorted(n for n in gen.all_defs(p) if n not in own)
            mu["name"] = rng.choice(c) if c and rng.random() < 0.5 else NEVER + mu["tag"]
        elif k in ("too-wide-field", "too-wide-simple"):
            mu["text"] = rng.choice(WIDE)
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
            if k == "too-wide-field":
                c = [d for d in m["defs"] if d["k"] in ("seq", "choice")]
                if not c:
                    continue
                d = rng.choice(c)
                mu["type"] = d["name"]
                mu["where"] = rng.randrange(len(d["fields"]) + 1)
        elif k == "unreadable-file":
            mu["op"], mu["errno"] = rng.choice([("openr", 13), ("openr", 5), ("read", 5), ("openr", 2), ("openr", 24),
                                                ("openr", 23), ("read", 12)])
            mu["skip"] = rng.choice([0, 0, 1]) if mu["op"] == "read" else 0
            mu["skip"] = 0 if mu["errno"] == 12 else mu["skip"]
        elif k == "garbled-file":
            # bytes that are not text
            mu["frac"] = rng.random()
            mu["bytes"] = rng.choice(["\udcff", "\udcc3", "\udc80", "\udcff\udcfe", "\udce2\udc82", "\udcf0\udc9f\udc98"])
        elif k == "truncated":
            mu["frac"] = rng.choice([0.01, 0.3, 0.5, 0.8, 0.95, 1.0, rng.random()])
            # at the end of a line: nothing is cut in the middle
            mu["line"] = rng.choice([0, 0, 1, 2, 3, rng.randrange(1, 12)])
        elif k in ("duplicate-file", "modules-repeated", "modules-missing", "modules-renamed"):
            mu["where"] = rng.randrange(len(p["modules"]) + 1)
        elif k == "duplicate-type":
            mu["type"] = rng.choice(m["defs"])["name"]
            mu["how"] = rng.choice(["copy", "simple", "enum"])
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
        elif k == "duplicate-type-elsewhere":
            if len(p["modules"]) < 2:
                continue
            n = rng.choice([x for x in p["modules"] if x is not m])
            mu["type"] = rng.choice(n["defs"])["name"]
            mu["from"] = n["name"]
            mu["how"] = rng.choice(["copy", "simple", "enum"])
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
        elif k == "import-unknown-type":
            if not m["imports"]:
                others = [x for x in p["modules"] if x is not m]
                if not others:
                    continue
                mu["from"] = rng.choice(others)["name"]
            else:
                i = rng.randrange(len(m["imports"]))
                mu["from"] = m["imports"][i]["from"]
                mu["nth"] = sum(im["from"] == mu["from"] for im in m["imports"][:i])
            mu["where"] = rng.randrange(5)
            mu["item"] = rng.random() < 0.25
            mu["pad"] = rng.choice([0, 0, 0, 3, 9, 14])
        elif k == "import-unknown-module":
            mu["where"] = rng.randrange(3)
        elif k in ("unknown-type", "unknown-array-type", "reversed-integer", "reversed-real", "null-field", "self-type",
                   "circular-array", "null-array", "reversed-array"):
            c = [d for d in m["defs"] if d["k"] == "seq"]
            if not c:
                continue
            d = rng.choice(c)
            mu["type"] = d["name"]
            mu["where"] = rng.randrange(len(d["fields"]) + 1)
            if k == "reversed-integer":
                hi = rng.choice([rng.randrange(-(1 << 62), 1 << 63), (1 << rng.randrange(1, 64)) - rng.randrange(2), rng.randrange(-300, 300)])
                mu["lo"], mu["hi"] = rng.choice([(8, 7), (1, 0), (255, 0), (65536, 65535), (0, -1), (-5, -6), (100, -100), (10, 9), (100, 20),
                                                 (hi + 1, hi), (hi + 1, hi), (hi + rng.choice([2, 10, 1000]), hi)])
            if k == "reversed-real":
                mu["lo"], mu["hi"] = rng.choice([("1.0", "0.5"), ("0.1", "-0.1"), ("-1.0", "-1.5"), ("1.0e10", "9.0e9"),
                                                 ("10.0", "9.0"), ("1.0e-5", "1.0e-6"), ("0.30000000000000004", "0.3"),
                                                 ("1.0e300", "-1.0e300"), ("1.0e39", "3.4e38"), ("1.5", "1.25")])
        elif k == "reversed-simple":
            mu["text"] = rng.choice(["INTEGER(8..7)", "INTEGER(0..-1)", "REAL(0.5 .. 0.25)", "INTEGER(65535..65534)"])
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
        elif k == "unknown-key-far":
            # in a long or deeply nested list
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
            mu["n"] = rng.choice([1, 3, 9, 14, 20])
            mu["at"] = rng.choice([mu["n"], mu["n"], rng.randrange(mu["n"] + 1)])
            mu["depth"] = rng.choice([0, 0, 1, 2, 4, 6])
        elif k == "circular-chain":
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
            mu["links"] = [rng.choice(["seq", "seq", "choice", "array", "choice-array", "simple"]) for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 9, 13]))]
            mu["entry"] = rng.random() < 0.5
            mu["flip"] = rng.random() < 0.5
        elif k == "import-from-wrong-module":
            c = [(im["from"], t, o2["name"]) for im in m["imports"] for t in im["types"] for o2 in p["modules"]
                 if o2["name"] not in (im["from"], m["name"]) and m["name"] not in reach(p, o2["name"])]
            if not c:
                continue
            mu["from"], mu["type"], mu["to"] = rng.choice(c)
            mu["keep"] = rng.random() < 0.5
            mu["where"] = rng.randrange(3)
        elif k in ("unknown-simple-type", "null-simple", "unknown-choice-type", "null-choice", "reversed-choice"):
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
        elif k == "not-imported":
            c = [(i, t) for i, im in enumerate(m["imports"]) for t in im["types"] if uses(m, t)]
            if not c:
                continue
            i, t = rng.choice(c)
            mu["type"] = t
        elif k == "unknown-wc-key":
            c = []
            for d in m["defs"]:
                for j, f in enumerate(d.get("fields", ())):
                    if f.get("wc"):
                        for path in wc_paths(f["wc"]):
                            c.append((d["name"], j, path))
            if not c:
                continue
            mu["type"], mu["field"], mu["path"] = rng.choice(c)
            mu["how"] = rng.choice(["rename", "add", "add-first"])
        elif k == "circular-imports":
            c = [(im["from"]) for im in m["imports"]]
            if not c:
                continue
            # import back from a module this one (transitively) depends on
            tgt = rng.choice(sorted(reach(p, m["name"])))
            mu["back"] = tgt
            mu["type"] = rng.choice(m["defs"])["name"]
        elif k == "self-import":
            mu["type"] = rng.choice(m["defs"])["name"]
        elif k == "circular-types":
            c = []
            ds = {d["name"]: d for d in m["defs"] if d["k"] == "seq"}
            for n, d in ds.items():
                for f in d["fields"]:
                    if f["t"]["b"] == "REF" and f["t"]["name"] in ds and f["t"]["name"] != n:
                        c.append((n, f["t"]["name"]))
            if not c:
                continue
            mu["type"], mu["back"] = rng.choice(c)
            mu["where"] = rng.randrange(5)
        elif k == "posix-mismatch":
            have = gen.all_defs(p)
            c = [n for n in list(gen.POSIX) + list(gen.FLT) if n not in have]
            if c and rng.random() < 0.5:
                mu["type"] = rng.choice(c)
                mu["new"] = True
            else:
                c = [d["name"] for d in m["defs"] if d["name"] in gen.POSIX or d["name"] in gen.FLT]
                if not c:
                    continue
                mu["type"] = rng.choice(c)
                mu["new"] = False
            if mu["type"] in gen.POSIX:
                lo, hi = gen.POSIX[mu["type"]]
                mu["lo"], mu["hi"] = rng.choice([(lo, hi - 1), (lo + 1, hi), (lo, hi + 1), (lo - 1, hi), (0, 1)])
            else:
                mu["lo"], mu["hi"] = rng.choice([("-1.0", "1.0"), ("-3.3e38", "3.4e38"), ("-3.4e38", "3.3e38")])
            mu["where"] = rng.randrange(len(m["defs"]) + 1)
        elif k == "enum-positions":
            c = [d for d in m["defs"] if d["k"] == "enum"]
            if c and rng.random() < 0.7:
                d = rng.choice(c)
                n = len(d["items"])
                mu["type"] = d["name"]
            else:
                n = rng.choice([2, 3, 4, 5, 9])
                mu["type"] = None
                mu["where"] = rng.randrange(len(m["defs"]) + 1)
            mu["pos"] = bad_positions(rng, n)
        if k in ("unknown-type", "unknown-array-type", "unknown-simple-type", "unknown-choice-type"):
            mu["name"] = odd_type(rng, p, m)
        elif k == "import-unknown-type":
            # not defined in that module, perhaps in another
            have = gen.all_defs(p)
            own = {d["name"] for x in p["modules"] if x["name"] == mu["from"] for d in x["defs"]}
            n = rng.choice([None, near(rng, have, True), rng.choice(sorted(have))])
            mu["name"] = None if n in own else n
        elif k == "import-unknown-module":
            n = near(rng, [x["name"] for x in p["modules"]], False) if rng.random() < 0.5 else None
            mu["name"] = None if any(x["name"] == n for x in p["modules"]) else n
        elif k == "unknown-wc-key":
            keys = {f["key"] for d in gen.all_defs(p).values() for f in d.get("fields", ())}
            x = rng.random()
            if x > 0.6:
                try:
                    keys = wc_keys(p, at(defn(m, mu["type"])["fields"], mu["field"]), mu["path"])
                except Inapplicable:
                    pass
            mu["name"] = None if x < 0.3 else rng.choice(sorted(keys)) if x < 0.5 else near(rng, keys, False)
        elif k in ("modules-extra", "modules-renamed", "unknown-packet-module"):
            n = near(rng, [x["name"] for x in p["modules"]], False) if rng.random() < 0.5 else None
            mu["name"] = None if any(x["name"] == n for x in p["modules"]) else n
        elif k == "unknown-message" and rng.random() < 0.3:
            mu["name"] = near(rng, gen.all_defs(p), True) or mu["name"]
        try:
            apply(p, o, [mu])
        except Inapplicable:
            continue
        return mu
    return None


def bad_positions(rng, n):
    if n == 1:
        return [rng.choice([1, 2, -1, 100])]
    for _ in range(100):
        base = list(range(n))
        x = rng.randrange(9)
        if x == 0:
            pos = [i + 1 for i in base]
        elif x == 1:
            pos = base[:]
            pos[rng.randrange(n)] = rng.choice([n, n + 1, 100])
        elif x == 2:
            pos = base[:]
            pos[rng.randrange(1, n)] = 0
        elif x == 3:
            pos = base[:]
            pos[rng.randrange(n)] = -rng.randrange(1, n + 1)
        elif x == 4 and n >= 3:
            # same sum as a permutation
            pos = base[:]
            i, j = rng.sample(range(n), 2)
            pos[i] += 1
            pos[j] -= 1
        elif x == 5:
            pos = [rng.randrange(-n, n) for _ in range(n)]
        elif x == 6 and n >= 3:
            # sum of positions is right, values are not in range
            pos = base[:]
            i, j = rng.sample(range(n), 2)
            k = rng.randrange(1, 2 * n)
            pos[i] += k
            pos[j] -= k
        elif x == 7:
            pos = [None] * n
            pos[rng.randrange(n)] = rng.randrange(2, n + 3)
        else:
            pos = [1, -1] + [0] * (n - 2)
        if rng.random() < 0.5:
            rng.shuffle(pos)
        if bad(pos):
            return pos
    return [1, 1] + [0] * (n - 2)


def bad(pos):
    v = [x or 0 for x in pos]
    return any(v) and sorted(v) != list(range(len(v)))


def uses(m, t):
    for d in m["defs"]:
        for f in d.get("fields", ()):
            ft = f["t"]
            if ft["b"] == "ARR":
                ft = ft["of"]
            if ft["b"] == "REF" and ft["name"] == t:
                return True
    return False


def reach(p, name):
    im = {m["name"]: [i["from"] for i in m["imports"]] for m in p["modules"]}
    seen, todo = set(), list(im.get(name, ()))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += im.get(x, ())
    return seen


def wc_keys(q, f, path):
    """Keys of the type that the WITH COMPONENTS list at the path constrains."""
    defs, lst, t = gen.all_defs(q), f["wc"], f["t"]
    for i in path:
        d = defs.get(t.get("name"))
        if not d or d["k"] != "seq":
            raise Inapplicable
        types = {x["key"]: x["t"] for x in d["fields"]}
        keys = set(types)
        c = at(lst, i)
        if isinstance(c["v"], dict) and "wc" in c["v"] and c["key"] in types:
            lst, t = c["v"]["wc"], types[c["key"]]
        else:
            lst, t = [], {}
    return keys


def wc_paths(wc, pre=()):
    for i, c in enumerate(wc):
        yield list(pre) + [i]
        if isinstance(c["v"], dict) and "wc" in c["v"]:
            yield from wc_paths(c["v"]["wc"], tuple(pre) + (i,))


def pick_some(rng, p, o, kind, n):
    """Up to n mutations of one kind that fit together."""
    muts = []
    for _ in range(n):
        mu = pick(rng, p, o, kind)
        try:
            if mu and mu not in muts:
                apply(p, o, muts + [mu])
                muts.append(mu)
        except Inapplicable:
            pass
    return muts


def apply(p, o, muts):
    q = copy.deepcopy(p)
    post = []
    for mu in muts:
        k = mu["kind"]
        tag = mu.get("tag", "")
        never = mu.get("name") or NEVER + tag
        m = find(q, mu["module"])
        if k in ("unknown-type", "unknown-array-type", "unknown-simple-type", "unknown-choice-type") and (
                any(d["name"] == never for d in m["defs"]) or any(never in im["types"] for im in m["imports"])):
            raise Inapplicable
        ins = lambda d: m["defs"].insert(min(mu["where"], len(m["defs"])), d)
        if k in ("missing-file", "unreadable-file", "garbled-file", "directory", "truncated", "empty-file", "duplicate-file",
                 "modules-missing", "modules-extra", "modules-repeated", "modules-renamed", "duplicate-module",
                 "unknown-message", "unknown-packet-module"):
            post.append(mu)
        elif k in ("duplicate-type", "duplicate-type-elsewhere"):
            src = defn(m if k == "duplicate-type" else find(q, mu["from"]), mu["type"])
            if k == "duplicate-type-elsewhere" and m["name"] == mu["from"]:
                raise Inapplicable
            if mu["how"] == "copy":
                if src["k"] in ("seq", "choice") and k == "duplicate-type-elsewhere":
                    # only what the other module can see
                    if any(f["t"]["b"] in ("REF", "ARR") for f in src["fields"]):
                        raise Inapplicable
                ins(copy.deepcopy(src))
            elif mu["how"] == "simple":
                t = {"b": "INTEGER", "lo": 0, "hi": 255}
                if mu["type"] in gen.POSIX or mu["type"] in gen.FLT:
                    t = copy.deepcopy(src.get("t", t))
                ins({"k": "simple", "name": mu["type"], "t": t})
            else:
                ins({"k": "enum", "name": mu["type"], "items": [{"key": "first-x", "pos": None}, {"key": "second-x", "pos": None}]})
        elif k == "import-unknown-module":
            m["imports"].insert(min(mu["where"], len(m["imports"])), {"from": mu.get("name") or "zz-nowhere" + tag, "types": ["Some-type"]})
        elif k == "import-unknown-type":
            if any(d["name"] == never for d in find(q, mu["from"])["defs"]):
                raise Inapplicable
            c = [im for im in m["imports"] if im["from"] == mu["from"]]
            if mu.get("pad"):
                # the last of many
                if mu["from"] == m["name"] or m["name"] in reach(q, mu["from"]):
                    raise Inapplicable
                ns = [f"Zz-pad{j}{tag}" for j in range(mu["pad"])]
                find(q, mu["from"])["defs"] += [{"k": "simple", "name": n, "t": {"b": "INTEGER", "lo": 0, "hi": 255}} for n in ns]
                m["imports"].insert(min(mu["where"], len(m["imports"])), {"from": mu["from"], "types": ns + [never]})
            elif c and mu["item"]:
                # an import item of its own
                m["imports"].insert(min(mu["where"], len(m["imports"])), {"from": mu["from"], "types": [never]})
            elif c:
                im = c[mu.get("nth", 0) % len(c)]
                im["types"].insert(min(mu["where"], len(im["types"])), never)
            else:
                if mu["from"] == m["name"] or m["name"] in reach(q, mu["from"]):
                    raise Inapplicable
                m["imports"].append({"from": mu["from"], "types": [never]})
        elif k in ("unknown-type", "unknown-array-type", "reversed-integer", "reversed-real", "null-field", "self-type",
                   "circular-array", "null-array", "reversed-array"):
            d = defn(m, mu["type"])
            if "fields" not in d:
                raise Inapplicable          # a duplicate of another kind comes first
            t = {"unknown-type": {"b": "REF", "name": never},
                 "unknown-array-type": {"b": "ARR", "n": 2, "of": {"b": "REF", "name": never}},
                 "reversed-integer": {"b": "INTEGER", "lo": mu.get("lo"), "hi": mu.get("hi")},
                 "reversed-real": {"b": "REAL", "lo": mu.get("lo"), "hi": mu.get("hi")},
                 "null-field": {"b": "RAW", "text": "NULL"},
                 "null-array": {"b": "RAW", "text": "SEQUENCE (SIZE (2)) OF NULL"},
                 "reversed-array": {"b": "RAW", "text": "SEQUENCE (SIZE (2)) OF INTEGER(8..7)"},
                 "self-type": {"b": "REF", "name": mu["type"]},
                 "circular-array": {"b": "ARR", "n": 2, "of": {"b": "REF", "name": mu["type"]}}}[k]
            d["fields"].insert(min(mu["where"], len(d["fields"])), {"key": f"zz-{k.split('-')[1]}{tag}", "t": t})
        elif k == "circular-types":
            a, b = defn(m, mu["type"]), defn(m, mu["back"])
            if not any(f["t"].get("name") == mu["back"] for f in a.get("fields", ())):
                raise Inapplicable
            if "fields" not in b:
                raise Inapplicable
            b["fields"].insert(min(mu["where"], len(b["fields"])), {"key": "zz-back" + tag, "t": {"b": "REF", "name": mu["type"]}})
        elif k == "too-wide-simple":
            ins({"k": "simple", "name": "Zz-wide-range" + tag, "t": {"b": "RAW", "text": mu["text"]}})
        elif k == "too-wide-field":
            d = defn(m, mu["type"])
            if "fields" not in d:
                raise Inapplicable
            d["fields"].insert(min(mu["where"], len(d["fields"])), {"key": "zz-wide" + tag, "t": {"b": "RAW", "text": mu["text"]}})
        elif k == "reversed-simple":
            ins({"k": "simple", "name": "Zz-reversed" + tag, "t": {"b": "RAW", "text": mu["text"]}})
        elif k == "unknown-simple-type":
            ins({"k": "simple", "name": "Zz-alias" + tag, "t": {"b": "REF", "name": never}})
        elif k == "null-simple":
            ins({"k": "simple", "name": "Zz-null" + tag, "t": {"b": "RAW", "text": "NULL"}})
        elif k == "unknown-choice-type":
            ins({"k": "choice", "name": "Zz-choice" + tag, "fields": [{"key": "zz-one", "t": {"b": "REF", "name": m["defs"][0]["name"]}},
                                                                {"key": "zz-two", "t": {"b": "REF", "name": never}}]})
        elif k in ("null-choice", "reversed-choice"):
            t = {"b": "RAW", "text": "NULL" if k == "null-choice" else "INTEGER(8..7)"}
            ins({"k": "choice", "name": "Zz-alt" + tag, "fields": [{"key": "zz-one", "t": {"b": "REF", "name": m["defs"][0]["name"]}},
                                                               {"key": "zz-two", "t": t}]})
        elif k == "unknown-key-far":
            u = {"b": "INTEGER", "lo": 0, "hi": 255}
            ds = [{"k": "seq", "name": f"Zz-wide{tag}", "fields": [{"key": f"zz-k{j}", "t": u} for j in range(mu["n"])]}]
            wc = [{"key": f"zz-k{j}", "v": j} for j in range(mu["n"])]
            wc.insert(mu["at"], {"key": "zz-unknown", "v": 1})
            for j in range(mu["depth"]):
                ds.append({"k": "seq", "name": f"Zz-nest{j}{tag}", "fields": [{"key": "zz-a", "t": u}, {
                    "key": "zz-b", "t": {"b": "REF", "name": ds[-1]["name"]}}]})
                wc = [{"key": "zz-a", "v": 7}, {"key": "zz-b", "v": {"wc": wc}}]
            ds.append({"k": "seq", "name": f"Zz-holder{tag}", "fields": [{"key": "zz-it", "t": {"b": "REF", "name": ds[-1]["name"]}, "wc": wc}]})
            for d in ds:
                ins(d)
        elif k == "circular-chain":
            names = [f"Zz-link{j}{tag}" for j in range(len(mu["links"]))]
            ds = []
            for j, how in enumerate(mu["links"]):
                t = {"b": "REF", "name": names[(j + 1) % len(names)]}
                if "array" in how:
                    t = {"b": "ARR", "n": 3, "of": t}
                if how == "simple":
                    ds.append({"k": "simple", "name": names[j], "t": t})
                    continue
                ds.append({"k": "choice" if how.startswith("choice") else "seq", "name": names[j], "fields": [
                    {"key": "zz-count", "t": {"b": "INTEGER", "lo": 0, "hi": 255}}, {"key": "zz-next", "t": t}]})
            if mu["entry"]:
                # reached from outside the circle
                ds.append({"k": "seq", "name": f"Zz-entry{tag}", "fields": [{"key": "zz-in", "t": {"b": "REF", "name": names[-1]}}]})
            for d in reversed(ds) if mu["flip"] else ds:
                ins(d)
        elif k == "import-from-wrong-module":
            if any(d["name"] == mu["type"] for d in find(q, mu["to"])["defs"]) or m["name"] in reach(q, mu["to"]):
                raise Inapplicable
            if not any(im["from"] == mu["from"] and mu["type"] in im["types"] for im in m["imports"]):
                raise Inapplicable
            if not mu["keep"]:
                for im in m["imports"]:
                    if im["from"] == mu["from"]:
                        im["types"] = [t for t in im["types"] if t != mu["type"]]
                m["imports"] = [im for im in m["imports"] if im["types"]]
            m["imports"].insert(min(mu["where"], len(m["imports"])), {"from": mu["to"], "types": [mu["type"]]})
        elif k == "not-imported":
            if not uses(m, mu["type"]) or any(d["name"] == mu["type"] for d in m["defs"]):
                raise Inapplicable
            for im in m["imports"]:
                im["types"] = [t for t in im["types"] if t != mu["type"]]
            m["imports"] = [im for im in m["imports"] if im["types"]]
        elif k == "unknown-wc-key":
            f = at(defn(m, mu["type"]).get("fields"), mu["field"])
            if not f.get("wc"):
                raise Inapplicable
            lst = f["wc"]
            for i in mu["path"][:-1]:
                v = at(lst, i)["v"]
                if not (isinstance(v, dict) and "wc" in v):
                    raise Inapplicable
                lst = v["wc"]
            i = mu["path"][-1]
            at(lst, i)
            bad_key = mu.get("name") or "zz-no-such-key" + tag
            if mu.get("name") and bad_key in wc_keys(q, f, mu["path"]):
                raise Inapplicable
            if mu["how"] == "rename":
                lst[i]["key"] = bad_key
            else:
                lst.insert(0 if mu["how"] == "add-first" else i + 1, {"key": bad_key, "v": 1})
        elif k == "circular-imports":
            b = find(q, mu["back"])
            defn(m, mu["type"])
            if mu["back"] not in reach(q, mu["module"]):
                raise Inapplicable
            b["imports"].append({"from": mu["module"], "types": [mu["type"]]})
        elif k == "self-import":
            defn(m, mu["type"])
            m["imports"].append({"from": mu["module"], "types": [mu["type"]]})
        elif k == "posix-mismatch":
            t = {"b": "INTEGER" if mu["type"] in gen.POSIX else "REAL", "lo": mu["lo"], "hi": mu["hi"]}
            if t["b"] == "REAL" and (mu["lo"], mu["hi"]) == gen.FLT[mu["type"]]:
                raise Inapplicable
            if mu["new"]:
                if mu["type"] in gen.all_defs(q):
                    raise Inapplicable
                ins({"k": "simple", "name": mu["type"], "t": t})
            else:
                defn(m, mu["type"])["t"] = t
        elif k == "enum-positions":
            if mu["type"] is None:
                d = {"k": "enum", "name": "Zz-enum" + tag, "items": [{"key": f"zz-item{i}"} for i in range(len(mu["pos"]))]}
                ins(d)
            else:
                d = defn(m, mu["type"])
            if d["k"] != "enum" or len(d["items"]) != len(mu["pos"]) or not bad(mu["pos"]):
                raise Inapplicable
            for it, x in zip(d["items"], mu["pos"]):
                it["pos"] = x
        else:
            raise ValueError(k)
    texts = gen.render(q)
    files = [m["file"] for m in q["modules"]]
    modules = [m["name"] for m in q["modules"]]
    faults = []
    if len({mu["kind"] for mu in post if mu["kind"].startswith("modules-")}) > 1:
        raise Inapplicable                  # they may cancel out
    for mu in post:
        k = mu["kind"]
        tag = mu.get("tag", "")
        m = find(q, mu["module"])
        f = m["file"]
        if k.startswith("modules-") and o["cmd"] == "cosmos":
            raise Inapplicable
        if k == "missing-file":
            texts[f] = None
        elif k == "directory":
            texts[f] = ("dir",)
        elif k == "unreadable-file":
            faults.append({"t": "rule", "ops": [mu["op"]], "path": f, "skip": mu["skip"], "count": 1, "v": FAIL,
                           "a": mu["errno"]})
        elif k == "garbled-file":
            s = texts[f]
            if not isinstance(s, str):
                raise Inapplicable
            n = int(mu["frac"] * len(s))
            texts[f] = s[:n] + mu["bytes"] + s[n:]
        elif k == "truncated":
            s = texts[f]
            if not isinstance(s, str) or "END" not in s:
                raise Inapplicable
            n = s.rindex("END")
            texts[f] = s[:min(n + 2, int(mu["frac"] * (n + 2)))]
            if mu.get("line"):
                texts[f] = "".join(s[:n].splitlines(True)[:1 - mu["line"] or None])
        elif k == "empty-file":
            texts[f] = ""
        elif k == "duplicate-file":
            files.insert(min(mu["where"], len(files)), f)
        elif k == "duplicate-module":
            g = f"zz_copy{tag}.asn"
            if g in texts:
                raise Inapplicable
            texts[g] = gen.render_module({"name": m["name"], "file": g, "imports": [], "defs": [
                {"k": "enum", "name": "Zz-copy" + tag, "items": [{"key": "zz-a"}, {"key": "zz-b"}]}]})
            files.append(g)
        elif k == "unknown-message":
            own = {d["name"] for x in p["modules"] if x["name"] == o["module"] for d in x["defs"]}
            if o["cmd"] != "cosmos" or mu["name"] in own:
                raise Inapplicable
            modules.append(f"=message {mu['where']} {mu['name']}")
        elif k == "unknown-packet-module":
            if o["cmd"] != "cosmos":
                raise Inapplicable
            modules.append(f"=module {mu.get('name') or o['module'] + 'x' + tag}")
        elif k == "modules-missing":
            if len(modules) < 2 or m["name"] not in modules:
                raise Inapplicable
            modules.remove(m["name"])
        elif k == "modules-extra":
            modules.append(mu.get("name") or "zz-extra" + tag)
        elif k == "modules-repeated":
            modules.insert(min(mu["where"], len(modules)), m["name"])
        elif k == "modules-renamed":
            modules = [mu.get("name") or x + "x" if x == m["name"] else x for x in modules]
    return texts, files, modules, faults


def put(host, texts, indir="work"):
    import os
    for f, t in texts.items():
        if isinstance(t, str):
            host.put(f"{indir}/{f}", t)
        elif t is not None:
            os.makedirs(host.p(f"{indir}/{f}"))
