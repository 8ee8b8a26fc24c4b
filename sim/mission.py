"""The world around the tool: flight software compiled from the generated
headers, a link, and a ground station that interprets the generated COSMOS
definitions.  The expectations are computed from the project data alone."""
import os
import struct
import subprocess

from . import gen

FLT_MIN, FLT_MAX = -3.4e38, 3.4e38
DBL = 1.7976931348623157e308


def c(name):
    return name.replace("-", "_")


def low(name):
    return name[:1].lower() + name[1:]


# ------------------------------------------------------------------ expectation

def resolve(t, defs):
    """Named simple types stand for what they are defined as."""
    while t["b"] == "REF" and defs[t["name"]]["k"] == "simple":
        t = defs[t["name"]]["t"]
    return t


def leaves(defs, name, wc=(), path=()):
    """Everything that carries a value, in declaration order.  wc is a list of
    (definition that fixes the value, component)."""
    out = []
    fx = {x["key"]: (o, x["v"]) for o, x in wc}
    for f in defs[name]["fields"]:
        t = resolve(f["t"], defs)
        inner = [(name, x) for x in f.get("wc") or ()]
        owner, v = fx.get(f["key"], (None, None))
        if isinstance(v, dict) and "wc" in v:
            inner += [(owner, x) for x in v["wc"]]
            v = None
        if t["b"] == "REF" and defs[t["name"]]["k"] == "seq":
            out += leaves(defs, t["name"], inner, path + (f["key"],))
            continue
        le = {"key": f["key"], "path": path + (f["key"],), "c": ".".join(c(x) for x in path + (f["key"],)),
              "unit": f.get("unit"), "comment": f.get("comment") or "", "le": bool(f.get("le")), "fixed": v, "owner": owner, "n": None}
        if t["b"] == "ARR":
            le["n"] = t["n"]
            t = resolve(t["of"], defs)
        if t["b"] == "INTEGER":
            le.update(kind="uint" if t["lo"] >= 0 else "int", bits=gen.width(t, defs), lo=t["lo"], hi=t["hi"])
        elif t["b"] == "REAL":
            le.update(kind="float", bits=gen.width(t, defs), lo=float(t["lo"]), hi=float(t["hi"]))
        elif t["b"] == "BOOLEAN":
            le.update(kind="bool", bits=1, states={"False": 0, "True": 1})
        elif t["b"] == "STR":
            le.update(kind="str", bits=8 * t["n"])
        elif t["b"] == "REF":
            items = defs[t["name"]]["items"]
            pos = [i["pos"] for i in items]
            if all(p is None for p in pos):
                pos = list(range(len(items)))
            le.update(kind="enum", bits=max((len(items) - 1).bit_length(), 1), states={i["key"]: p for i, p in zip(items, pos)})
        else:
            raise ValueError(t)
        out.append(le)
    return out


def total_bits(ls):
    return sum(x["bits"] * (x["n"] or 1) for x in ls)


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def value(rng, le, zero=False):
    """A value flight software may put into the field."""
    if le["n"] is not None and not zero:
        one = dict(le, n=None)
        return [value(rng, one) for _ in range(le["n"])]
    if le["n"] is not None:
        return [value(rng, dict(le, n=None), True) for _ in range(le["n"])]
    k = le["kind"]
    if zero:
        return {"uint": 0, "int": 0, "float": 0.0, "bool": 0, "str": "", "enum": None}[k] if k != "enum" else min(
            le["states"], key=lambda s: le["states"][s])
    if le["fixed"] is not None:
        v = le["fixed"]
        return f32(float(v["f"])) if isinstance(v, dict) and le["bits"] == 32 else float(v["f"]) if isinstance(v, dict) else v + 0
    if k in ("uint", "int"):
        return rng.choice([le["lo"], le["hi"], rng.randint(le["lo"], le["hi"]), rng.randint(le["lo"], le["hi"])])
    if k == "float":
        lo, hi = max(le["lo"], -1e37 if le["bits"] == 32 else -1e300), min(le["hi"], 1e37 if le["bits"] == 32 else 1e300)
        if lo > hi:
            lo, hi = le["lo"], le["hi"]
        v = rng.choice([rng.uniform(lo, hi), lo, hi])
        return f32(v) if le["bits"] == 32 else v
    if k == "bool":
        return rng.randrange(2)
    if k == "enum":
        return rng.choice(sorted(le["states"]))
    n = le["bits"] // 8
    return "".join(rng.choice("0123456789" if rng.random() < 0.3 else "ABCXYZabcxyz0189 .") for _ in range(rng.choice([n, n, rng.randrange(n + 1)])))


def number(le, v):
    """The number that goes over the link for a scalar."""
    return le["states"][v] if le["kind"] == "enum" else v


# ------------------------------------------------------------------ flight code

class BuildError(Exception):
    pass


def gcc(host, args, cwd):
    r = subprocess.run(["gcc", "-std=gnu11", "-w", "-Wno-packed-bitfield-compat", "-O0"] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, timeout=120, env={"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C",
                                                                    "TMPDIR": host.aux})
    if r.returncode:
        text = r.stdout.decode(errors="replace").replace(host.root, "")
        errs = [x for x in text.split("\n") if "error" in x or "undefined" in x or "multiple" in x]
        raise BuildError("error: " + ("; ".join(errs[:4]) or text[:400]))


def compile_alone(host, outdir, headers):
    """Every header has to compile on its own."""
    if headers:
        gcc(host, ["-fsyntax-only", "-x", "c"] + headers, host.p(outdir))


def run_exe(host, exe, cwd):
    r = subprocess.run([exe], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60)
    if r.returncode:
        raise BuildError(f"compiled program ended with {r.returncode}")
    return r.stdout


def lit(le, v):
    k = le["kind"]
    if k == "enum":
        return c(v)
    if k == "float":
        return float(v).hex() if v == v else "0.0"
    if k == "int":
        return "(-9223372036854775807LL-1)" if v == -2**63 else f"({v}LL)"
    return f"{int(v)}ULL"


def le_bytes(le, v):
    vs = v if isinstance(v, list) else [v]
    b = b""
    for x in vs:
        if le["kind"] == "float":
            b += struct.pack("<f" if le["bits"] == 32 else "<d", x)
        else:
            b += int(number(le, x)).to_bytes(le["bits"] // 8, "little", signed=le["kind"] == "int")
    return b


PROLOGUE = """#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
"""


def flight(host, outdir, headers, sends, macros=()):
    """Compiles and runs flight software that fills message structs and sends
    them.  sends: [(type name, leaves, values, fill)]; macros: constants to
    report.  -> (packets, macro values)"""
    s = PROLOGUE
    for h in headers:
        if h.endswith("_msgids.h"):
            s += f'#include "{h}"\n'
    s += "#pragma scalar_storage_order big-endian\n"
    for h in headers:
        if not h.endswith("_msgids.h"):
            s += f'#include "{h}"\n'
    s += "#pragma scalar_storage_order default\n"
    s += ("static void send(const void *p, unsigned n) { unsigned char l[4] = {n >> 24, n >> 16, n >> 8, n};"
          " fwrite(l, 4, 1, stdout); fwrite(p, n, 1, stdout); }\n")
    calls = ""
    for i, (name, ls, vals, fill) in enumerate(sends):
        T = c(name)
        s += f"static void f{i}(void) {{\n  {T} m; unsigned char b[sizeof(m)];\n  memset(&m, {fill}, sizeof m);\n"
        post = ""
        for le, v in zip(ls, vals):
            if le["kind"] == "str":
                n = le["bits"] // 8
                for j in range(n):
                    s += f"  m.{le['c']}[{j}] = {ord(v[j]) if j < len(v) else 0};\n"
            elif le["n"] is not None:
                for j, x in enumerate(v):
                    s += f"  m.{le['c']}[{j}] = {lit(le, x)};\n"
            else:
                s += f"  m.{le['c']} = {lit(le, v)};\n"
            if le["le"]:
                by = ",".join(str(x) for x in le_bytes(le, v))
                post += f"  {{ static const unsigned char x[] = {{{by}}}; memcpy(b + offsetof({T}, {le['c']}), x, sizeof x); }}\n"
        s += f"  memcpy(b, &m, sizeof m);\n{post}  send(b, sizeof b);\n}}\n"
        calls += f"  f{i}();\n"
    mac = ""
    for m in macros:
        mac += (f"#ifdef {m}\n  {{ double d = {m}; long long v = (long long)({m}); unsigned char o[17]; o[0] = 1; memcpy(o + 1, &d, 8);"
                f" memcpy(o + 9, &v, 8); send(o, 17); }}\n#else\n  send(\"\", 0);\n#endif\n")
    s += "int main(void) {\n" + mac + calls + "  return 0;\n}\n"
    src = os.path.join(host.aux, "flight.c")
    exe = os.path.join(host.aux, "flight")
    with open(src, "w") as f:
        f.write(s)
    gcc(host, ["-I.", "-o", exe, src], host.p(outdir))
    out = run_exe(host, exe, host.p(outdir))
    frames = []
    i = 0
    while i < len(out):
        n = struct.unpack(">I", out[i:i + 4])[0]
        frames.append(out[i + 4:i + 4 + n])
        i += 4 + n
    vals = {}
    for m, fr in zip(macros, frames):
        vals[m] = None if not fr else (struct.unpack("<d", fr[1:9])[0], struct.unpack("<q", fr[9:17])[0])
    return frames[len(macros):], vals


def reader(host, outdir, headers, sources, objects, big):
    """Compiles and runs flight code that reads stored data and reports every
    component.  objects: [(type, variable or None, .bin or None, leaves)]
    -> [[bit pattern, ...]] per object, first entry the size of the struct"""
    s = PROLOGUE
    if big:
        s += "#pragma scalar_storage_order big-endian\n"
    for h in headers:
        s += f'#include "{h}"\n'
    if big:
        s += "#pragma scalar_storage_order default\n"
    s += ('static void u(unsigned long long v) { printf(" %llu", v); }\n'
          'static void f4(float x) { uint32_t v; memcpy(&v, &x, 4); u(v); }\n'
          'static void f8(double x) { uint64_t v; memcpy(&v, &x, 8); u(v); }\n'
          'int main(void) {\n')
    for i, (name, var, path, ls) in enumerate(objects):
        T = c(name)
        if var:
            s += f"  {{ {T} *p = &{var};\n    printf(\"%u\", (unsigned)sizeof({T}));\n"
        else:
            s += (f"  {{ static {T} o; {T} *p = &o; FILE *f = fopen(\"{path}\", \"rb\"); if (!f) return 3;\n"
                  f"    size_t n = fread(&o, 1, sizeof o, f); if (n != sizeof o || fgetc(f) != EOF) printf(\"size %u != file\", (unsigned)sizeof o);\n"
                  f"    else printf(\"%u\", (unsigned)sizeof o);\n    fclose(f);\n")
        for le in ls:
            e = f"p->{le['c']}"
            if le["kind"] == "float":
                s += f"    f{le['bits'] // 8}({e});\n"
            else:
                s += f"    u((unsigned long long)(long long){e});\n" if le["kind"] == "int" else f"    u({e});\n"
        s += '    printf("\\n"); }\n'
    s += "  return 0;\n}\n"
    src = os.path.join(host.aux, "reader.c")
    exe = os.path.join(host.aux, "reader")
    with open(src, "w") as f:
        f.write(s)
    gcc(host, ["-fcommon", "-I.", "-o", exe, src] + list(sources), host.p(outdir))
    return [x.split(" ") for x in run_exe(host, exe, host.p(outdir)).decode().split("\n")[:-1]]


def expect_bits(le, v):
    if le["kind"] == "float":
        x = float(v["f"])
        return struct.unpack("<I", struct.pack("<f", x))[0] if le["bits"] == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
    return int(v) & (2**64 - 1) if le["kind"] == "int" else int(v)


# ------------------------------------------------------------------------- link

def transmit(packets, events):
    """Deterministic lossy link: events[i] = {"drop", "dup", "delay", "flip"}
    for the i-th packet.  -> [(sent index, payload, intact)] in arrival order"""
    arr = []
    for i, pk in enumerate(packets):
        e = events[i % len(events)] if events else {}
        if e.get("drop"):
            continue
        data, intact = pk, True
        for b in e.get("flip", ()):
            b %= max(1, 8 * len(pk))
            data = data[:b // 8] + bytes([data[b // 8] ^ (0x80 >> (b % 8))]) + data[b // 8 + 1:]
            intact = data == pk
        for j in range(1 + e.get("dup", 0)):
            arr.append((i + e.get("delay", 0) * (1 + j), i, j, data, intact))
    arr.sort(key=lambda x: (x[0], x[1], x[2]))
    return [(i, d, ok) for _, i, _, d, ok in arr]


def pick_events(rng, n, flips=True, maxbit=None):
    ev = []
    for _ in range(n):
        e = {}
        x = rng.random()
        if x < 0.1:
            e["drop"] = True
        elif x < 0.25:
            e["dup"] = rng.choice([1, 1, 2])
        if rng.random() < 0.3:
            e["delay"] = rng.randrange(1, 6)
        if flips and rng.random() < 0.25:
            e["flip"] = [rng.randrange(maxbit or 100000) for _ in range(rng.choice([1, 1, 2, 3]))]
        ev.append(e)
    return ev


# --------------------------------------------------------------- ground station

class Malformed(Exception):
    pass


def tokens(line):
    out = []
    i = 0
    while i < len(line):
        if line[i].isspace():
            i += 1
        elif line[i] == '"':
            j = line.find('"', i + 1)
            if j < 0:
                raise Malformed(f"unterminated string in {line.strip()!r}")
            out.append(("s", line[i + 1:j]))
            i = j + 1
        else:
            j = i
            while j < len(line) and not line[j].isspace():
                j += 1
            out.append(("w", line[i:j]))
            i = j
    return out


def parse_cosmos(text):
    """COSMOS telemetry definition -> [packet]"""
    pkts = []
    for line in text.split("\n"):
        if not line.strip() or line.lstrip().startswith("#"):
            continue
        t = tokens(line)
        kw = t[0][1]
        w = [x[1] for x in t]
        kinds = "".join(x[0] for x in t)
        if kw == "TELEMETRY":
            if kinds not in ("wwww", "wwwws") or w[3] not in ("BIG_ENDIAN", "LITTLE_ENDIAN"):
                raise Malformed(line)
            pkts.append({"target": w[1], "name": w[2], "big": w[3] == "BIG_ENDIAN", "desc": w[4] if len(w) > 4 else "",
                         "items": [], "bits": 0})
            continue
        if not pkts:
            raise Malformed(f"{kw} outside of a packet")
        p = pkts[-1]
        if kw.startswith("APPEND_"):
            try:
                it = {"name": w[1], "bits": int(w[2]), "type": w[3], "id": None, "array": None, "states": {}, "unit": None,
                      "limits": None, "big": p["big"], "pos": p["bits"]}
                rest = t[4:]
                if kw == "APPEND_ID_ITEM":
                    it["id"] = rest.pop(0)[1]
                elif kw == "APPEND_ARRAY_ITEM":
                    it["array"] = int(rest.pop(0)[1])
                elif kw != "APPEND_ITEM":
                    raise Malformed(line)
                it["desc"] = rest.pop(0)[1] if rest and rest[0][0] == "s" else ""
                if rest:
                    e = rest.pop(0)[1]
                    if e not in ("BIG_ENDIAN", "LITTLE_ENDIAN") or rest:
                        raise Malformed(line)
                    it["big"] = e == "BIG_ENDIAN"
            except (IndexError, ValueError):
                raise Malformed(line)
            if it["type"] not in ("UINT", "INT", "FLOAT", "STRING", "BLOCK"):
                raise Malformed(line)
            if it["array"] is not None and (it["bits"] == 0 or it["array"] % it["bits"]):
                raise Malformed(line)
            p["items"].append(it)
            p["bits"] += it["array"] if it["array"] is not None else it["bits"]
            continue
        if not p["items"]:
            raise Malformed(f"{kw} outside of an item")
        it = p["items"][-1]
        if kw == "STATE" and len(w) >= 3:
            it["states"][w[1]] = int(w[2], 0)
        elif kw == "UNITS" and len(w) == 3:
            it["unit"] = (w[1], w[2])
        elif kw == "LIMITS" and len(w) == 8:
            it["limits"] = tuple(float(x) for x in w[4:8])
        else:
            raise Malformed(line)
    return pkts


def take(data, pos, n):
    v = int.from_bytes(data, "big")
    return (v >> (8 * len(data) - pos - n)) & ((1 << n) - 1)


def decode(it, data):
    """Value of an item in a received packet, as COSMOS would convert it."""
    total = it["array"] if it["array"] is not None else it["bits"]
    if it["pos"] + total > 8 * len(data):
        return None
    if it["array"] is not None:
        return [decode1(it, data, it["pos"] + k * it["bits"]) for k in range(it["array"] // it["bits"])]
    return decode1(it, data, it["pos"])


def decode1(it, data, pos):
    n = it["bits"]
    raw = take(data, pos, n)
    if it["type"] in ("STRING", "BLOCK"):
        return raw.to_bytes(n // 8, "big").split(b"\0")[0].decode("latin-1")
    if not it["big"] and n % 8 == 0:
        raw = int.from_bytes(raw.to_bytes(n // 8, "big"), "little")
    if it["type"] == "FLOAT":
        if n not in (32, 64):
            return None
        return struct.unpack(">f" if n == 32 else ">d", raw.to_bytes(n // 8, "big"))[0]
    if it["type"] == "INT" and raw >> (n - 1):
        raw -= 1 << n
    return raw


def id_value(it):
    """Number in an ID item, or None if COSMOS could not use it."""
    try:
        return float(it["id"]) if it["type"] == "FLOAT" else int(it["id"], 0)
    except ValueError:
        return None


def identify(pkts, data):
    """Names of the packets whose ID items all match."""
    res = []
    for p in pkts:
        ids = [it for it in p["items"] if it["id"] is not None]
        if ids and all(decode(it, data) == id_value(it) and id_value(it) is not None for it in ids):
            res.append(p["name"])
    return res


def model_identify(msgs, data):
    """The same from the model: msgs = [(name, leaves)]"""
    res = []
    for name, ls in msgs:
        pos = 0
        ok = any(le["fixed"] is not None for le in ls)
        for le in ls:
            n = le["bits"] * (le["n"] or 1)
            if le["fixed"] is not None:
                want = expect_bits(le, le["fixed"]) & ((1 << n) - 1)
                if le["le"] and n % 8 == 0:
                    want = int.from_bytes(want.to_bytes(n // 8, "big"), "little")
                if pos + n > 8 * len(data) or take(data, pos, n) != want:
                    ok = False
            pos += n
        if ok:
            res.append(name)
    return res
