"""Random ASN.1 projects as plain data, and their rendering to module texts.

project = {"flavour", "modules": [module]}
module  = {"name", "file", "comment", "icomment", "imports": [{"from", "types", "comment"}], "defs": [def]}
def     = {"k": "simple", "name", "t", "comment"}
        | {"k": "enum", "name", "items": [{"key", "pos", "comment", "unit"}], "comment"}
        | {"k": "seq"|"choice", "name", "comment", "fields": [field]}
field   = {"key", "t", "unit", "comment", "le", "wc"}
t       = {"b": "INTEGER", "lo", "hi"} | {"b": "REAL", "lo", "hi"} | {"b": "BOOLEAN"}
        | {"b": "STR", "kind", "n"} | {"b": "REF", "name"} | {"b": "ARR", "n", "of": t}
wc      = [{"key", "v"}], v = int | float-as-text {"f": "1.5"} | bool | {"wc": wc}
"""
import copy

TYPE_W = ["Attitude", "Battery", "Camera", "Drone", "Engine", "Filter", "Gyro", "Heater", "Imu", "Joint", "Kalman",
          "Laser", "Motor", "Nozzle", "Orbit", "Pump", "Quaternion", "Radio", "Sensor", "Thruster", "Uplink", "Valve",
          "Wheel", "Yaw", "Zone", "Accel", "Beacon", "Clamp", "Docking", "Ephemeris"]
FIELD_W = ["angle", "bias", "count", "delta", "error", "force", "gain", "height", "index-no", "jitter", "knob", "level",
           "mass", "noise", "offset", "power", "quota", "rate", "speed", "temp", "usage", "volt", "width", "xpos",
           "ypos", "zpos", "age", "bright", "charge", "depth"]
ENUM_W = ["off", "on", "idle", "busy", "safe", "nominal", "degraded", "lost", "armed", "fired", "open", "closed",
          "hot", "cold", "init", "ready", "stuck", "manual"]
MOD_W = ["nav", "pwr", "comm", "thermal", "payload", "base", "common", "driver", "sci", "mech", "prop", "obc"]
MSG_W = ["Hk", "Status", "Report", "Event", "Dump", "Sample", "Burst", "Frame"]
UNITS = ["m", "m/s", "m/s^2", "deg", "%", "V", "mA", "sec", "ms", "byte", "K", "1/s"]
COMMENT_W = ["current", "value", "of", "the", "sensor", "max", "raw", "counts", "since", "boot", "(see", "ICD)", "12.5%",
             "ratio", "x*y", "TBD", "a/b", "spare", "bit", "no. 3", "used", "0x1F", "A:", "B_C", "N/A", "ok, fine",
             "it's", "#3", "$x", "a;b", "<ref>", "R&D", "why?", "x=y", "a@b", "now!", "p+q", "2^n", "?", "*", "'q'", "(a,b)", "100%", "%s"]

HEADER_KEYS = ["function-code", "channel", "seconds", "is-urgent", "packet-version-number", "packet-type-is-cmd",
               "application-process-identifier", "packet-sequence-count", "primary", "secondary"]

APID_EDGES = [0, 1, 15, 16, 255, 256, 1023, 1024, 2046, 2047]

POSIX = {"Int8-t": (-2**7, 2**7 - 1), "Int16-t": (-2**15, 2**15 - 1), "Int32-t": (-2**31, 2**31 - 1),
         "Int64-t": (-2**63, 2**63 - 1), "Uint8-t": (0, 2**8 - 1), "Uint16-t": (0, 2**16 - 1),
         "Uint32-t": (0, 2**32 - 1), "Uint64-t": (0, 2**64 - 1)}
FLT = {"Float": ("-3.4e38", "3.4e38"), "Double": ("-1.7976931348623157e308", "1.7976931348623157e308")}


# ------------------------------------------------------------------ rendering

def r_comment(unit, comment, le=False):
    if not (unit or comment or le):
        return ""
    s = " --"
    if le:
        s += " ENDIANNESS(LITTLE)"
    if unit:
        s += f" [{unit}]"
    if comment:
        s += " " + comment
    return s


def r_type(t):
    b = t["b"]
    if b == "INTEGER":
        return f"INTEGER({t['lo']}..{t['hi']})"
    if b == "REAL":
        return f"REAL({t['lo']} .. {t['hi']})"
    if b == "BOOLEAN":
        return "BOOLEAN"
    if b == "STR":
        return f"{t['kind']} (SIZE ({t['n']}))"
    if b == "REF":
        return t["name"]
    if b == "ARR":
        return f"SEQUENCE (SIZE ({t['n']})) OF {r_type(t['of'])}"
    if b == "RAW":
        return t["text"]
    raise ValueError(b)


def r_wc(wc, ind, comment=None):
    out = "(WITH COMPONENTS {" + r_comment(None, comment) + "\n"
    for i, c in enumerate(wc):
        v = c["v"]
        last = i == len(wc) - 1
        out += " " * (ind + 2) + c["key"] + " "
        if isinstance(v, dict) and "wc" in v:
            out += r_wc(v["wc"], ind + 2, v.get("comment"))
        elif isinstance(v, dict):
            out += f"({v['f']})"
        elif isinstance(v, bool):
            out += "(TRUE)" if v else "(FALSE)"
        else:
            out += f"({v})"
        out += ("" if last else ",") + r_comment(None, c.get("comment")) + "\n"
    return out + " " * ind + "})"


def r_def(d):
    c = r_comment(None, d.get("comment"))
    if d["k"] == "simple":
        return f"  {d['name']} ::= {r_type(d['t'])}{c}\n"
    if d["k"] == "enum":
        s = f"  {d['name']} ::= ENUMERATED {{{c}\n"
        for i, it in enumerate(d["items"]):
            last = i == len(d["items"]) - 1
            pos = "" if it.get("pos") is None else f" ({it['pos']})"
            s += f"    {it['key']}{pos}{'' if last else ','}{r_comment(it.get('unit'), it.get('comment'))}\n"
        return s + "  }\n"
    kw = "SEQUENCE" if d["k"] == "seq" else "CHOICE"
    s = f"  {d['name']} ::= {kw} {{{c}\n"
    for i, f in enumerate(d["fields"]):
        last = i == len(d["fields"]) - 1
        com = r_comment(f.get("unit"), f.get("comment"), f.get("le"))
        s += f"    {f['key']} {r_type(f['t'])}"
        if f.get("wc"):
            gap = " " if f.get("inline") and not com else f"{com}\n      "
            s += f"{gap}{r_wc(f['wc'], 6, f.get('wcomment'))}{'' if last else ','}\n"
        else:
            s += f"{'' if last else ','}{com}\n"
    return s + "  }\n"


def render_module(m):
    s = f"Module-{m['name']} DEFINITIONS AUTOMATIC TAGS ::= BEGIN{r_comment(None, m.get('comment'))}\n\n"
    if m["imports"]:
        s += "  IMPORTS "
        for i, im in enumerate(m["imports"]):
            if i:
                s += "\n          "
            s += (",\n          " if im.get("lines") else ", ").join(im["types"]) + " FROM Module-" + im["from"]
            if im.get("comment"):
                s += r_comment(None, im["comment"]) + ("\n  " if i == len(m["imports"]) - 1 else "")
        s += ";" + r_comment(None, m.get("icomment")) + "\n\n"
    for d in m["defs"]:
        s += r_def(d) + "\n"
    return s + "END\n"


def render(project):
    return {m["file"]: render_module(m).replace("\n", "\r\n") if m.get("crlf") else render_module(m) for m in project["modules"]}


# ----------------------------------------------------------------- inspection

def all_defs(project):
    return {d["name"]: d for m in project["modules"] for d in m["defs"]}


def module_of(project):
    return {d["name"]: m for m in project["modules"] for d in m["defs"]}


def width(t, defs):
    """Bits of a type in the telemetry stream (None: no definite width)."""
    b = t["b"]
    if b == "INTEGER":
        if t["lo"] >= 0:
            return max(t["hi"].bit_length(), 1)
        for n in (8, 16, 32, 64):
            if t["lo"] >= -(1 << (n - 1)) and t["hi"] < (1 << (n - 1)):
                return n
    if b == "REAL":
        return 32 if float(t["lo"]) >= -3.4e38 and float(t["hi"]) <= 3.4e38 else 64
    if b == "BOOLEAN":
        return 1
    if b == "STR":
        return 8 * t["n"]
    if b == "ARR":
        return t["n"] * width(t["of"], defs)
    if b == "REF":
        d = defs[t["name"]]
        if d["k"] == "simple":
            return width(d["t"], defs)
        if d["k"] == "enum":
            return max((len(d["items"]) - 1).bit_length(), 1)
        return sum(width(f["t"], defs) for f in d["fields"])
    return None


def is_bits(t, defs):
    """Rendered as a C bit field (may start at any bit)."""
    b = t["b"]
    if b == "INTEGER":
        return t["lo"] >= 0 and t["hi"].bit_length() not in (8, 16, 32, 64)
    if b == "BOOLEAN":
        return True
    if b == "REF":
        d = defs[t["name"]]
        return d["k"] == "enum" or (d["k"] == "simple" and is_bits(d["t"], defs))
    return False


# ----------------------------------------------------------------- generation

class Gen:
    def __init__(self, rng, flavour, modules=None, size=1.0):
        self.r = rng
        self.flavour = flavour
        self.n_modules = modules or rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
        self.size = size
        self.used = {}
        self.enumkeys = {}
        self.modules = []
        self.defs = {}
        self.comments = rng.random() < 0.7
        self.swarm = {k: rng.random() < 0.75 for k in
                      ("real", "enum", "bool", "str", "arr", "nest", "le", "named", "posix", "signed", "forward",
                       "shuffle", "wide", "partial", "permute", "members")}
        self.swarm["large"] = rng.random() < 0.2
        self.long = rng.choice([0, 0, 0, 0, 0.05, 0.25])
        # now and then more of everything
        self.many = {k: rng.random() < 0.07 for k in ("modules", "messages", "fields", "types")}
        if self.many["modules"] and not modules:
            self.n_modules = rng.choice([6, 7, 9, 12])

    def name(self, pool):
        r = self.r
        for _ in range(1000):
            w = r.choice(pool)
            x = r.random()
            if x < 0.35:
                w = f"{w}{r.randrange(10)}"
            elif x < 0.6:
                w = f"{w}-{r.choice(FIELD_W).split('-')[0]}"
            elif x < 0.7:
                w = f"{w}-{r.randrange(100)}"
            elif x < 0.7 + self.long:
                w = f"{w}-{self.tail()}"
            if w not in self.used and w.lower() not in self.used and w not in ("Int", "Float", "Double"):
                self.used[w] = self.used[w.lower()] = 1
                return w
        raise RuntimeError("names exhausted")

    def tail(self):
        """Makes a name long."""
        return "-".join(self.r.choice(FIELD_W) for _ in range(self.r.choice([4, 7, 12])))

    def comment(self, p=0.4):
        if not self.comments or self.r.random() > p:
            return None
        n = self.r.randrange(1, 5) if self.r.random() < 0.94 else self.r.choice([10, 20, 30, 60])
        ws = [self.r.choice(COMMENT_W) for _ in range(n)]
        if n > 1 and self.r.random() < 0.06:
            ws[0] += " " * self.r.choice([1, 3])
        return " ".join(ws)

    def unit(self, p=0.3):
        return self.r.choice(UNITS) if self.comments and self.r.random() < p else None

    # types -----------------------------------------------------------------
    def uint(self, bits=None):
        r = self.r
        if bits is None:
            bits = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 20, 24, 31] +
                            ([33, 40, 47, 48, 56, 63] if self.swarm["wide"] else []))
        if bits == 1 and r.random() < 0.12:
            return {"b": "INTEGER", "lo": 0, "hi": 0}
        lo_hi = 1 << (bits - 1)
        hi = r.choice([(1 << bits) - 1, lo_hi, r.randrange(lo_hi, 1 << bits)])
        lo = 0 if r.random() < 0.8 else r.randrange(0, hi + 1)
        return {"b": "INTEGER", "lo": lo, "hi": hi}

    def sint(self):
        r = self.r
        n = r.choice([8, 16, 32, 64])
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        x = r.random()
        if x < 0.3:
            return {"b": "INTEGER", "lo": lo, "hi": hi}
        if x < 0.6 and n > 8:
            # just beyond the next smaller type, on either side
            e = 1 << (n // 2 - 1)
            a, b = r.choice([(-1, e), (-e, e), (-e - 1, e - 1), (-e - 1, 0), (-e - 1, e)])
            return {"b": "INTEGER", "lo": a, "hi": b}
        if x < 0.65:
            return {"b": "INTEGER", "lo": r.randrange(lo, 0), "hi": hi}
        if x < 0.75:
            # as large as the unsigned type of a width
            m = r.choice([8, 16, 32])
            return {"b": "INTEGER", "lo": r.choice([-1, -1, -(1 << (m - 1))]), "hi": (1 << m) - 1}
        return {"b": "INTEGER", "lo": lo, "hi": r.randrange(-1 if n > 8 else 0, hi + 1)}

    def real(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            a, b = sorted((round(r.uniform(-500, 500), r.randrange(1, 4)), round(r.uniform(-500, 500), 2)))
            return {"b": "REAL", "lo": repr(a), "hi": repr(b + 1.0)}
        if x < 0.7:
            # one end is that of the type
            a, b = FLT[r.choice(["Float", "Double"])]
            v = repr(round(r.uniform(-500, 500), 2))
            return {"b": "REAL", "lo": a, "hi": v} if r.random() < 0.5 else {"b": "REAL", "lo": v, "hi": b}
        if x < 0.8:
            return {"b": "REAL", "lo": FLT["Float"][0], "hi": FLT["Float"][1]}
        if x < 0.88:
            return {"b": "REAL", "lo": "-1.0e300", "hi": repr(float(f"{r.uniform(1, 9):.3f}e{r.randrange(40, 300)}"))}
        return {"b": "REAL", "lo": FLT["Double"][0], "hi": FLT["Double"][1]}

    def scalar_bytes(self):
        """A type that fills whole bytes and is not a C bit field."""
        r = self.r
        c = ["uint8"] * 2 + ["uint"] * 3
        if self.swarm["signed"]:
            c += ["sint"] * 2
        if self.swarm["real"]:
            c += ["real"] * 2
        k = r.choice(c)
        if k == "uint8":
            return self.uint(8)
        if k == "uint":
            return self.uint(r.choice([8, 16, 32, 64]))
        if k == "sint":
            return self.sint()
        return self.real()

    def new_simple(self, mod, t):
        d = {"k": "simple", "name": self.name(TYPE_W), "t": t, "comment": self.comment(0.2)}
        self.add(mod, d)
        return d

    def posix(self, mod):
        """A POSIX-named type; defined once in the project."""
        r = self.r
        n = r.choice(list(POSIX) if not self.swarm["real"] else list(POSIX) + list(FLT))
        if n in self.defs:
            return self.ref(mod, n)
        if n in POSIX:
            t = {"b": "INTEGER", "lo": POSIX[n][0], "hi": POSIX[n][1]}
        else:
            t = {"b": "REAL", "lo": FLT[n][0], "hi": FLT[n][1]}
        d = {"k": "simple", "name": n, "t": t, "comment": None}
        self.add(mod, d)
        return {"b": "REF", "name": n}

    def new_enum(self, mod, n=None):
        r = self.r
        n = n or r.choice([2, 2, 3, 3, 4, 5, 7, 8, 9, 13, 17])
        if r.random() < 0.04:
            n = 1
        elif self.swarm["large"] and r.random() < 0.15:
            n = r.choice([31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300])
        keys = []
        while len(keys) < n:
            w = r.choice(ENUM_W)
            if len(keys) > 6 or r.random() < 0.5:
                w += f"-{r.randrange(1000)}"
            if n < 10 and r.random() < self.long / 3:
                w += "-" + self.tail()
            if n > 20:
                w = f"{w}-x{len(keys)}" if f"{w}-x{len(keys)}" not in self.enumkeys else f"{w}-y{len(self.enumkeys)}"
            if w not in self.enumkeys and w not in self.used:
                self.enumkeys[w] = 1
                self.used[w] = 1
                keys.append(w)
        pos = list(range(n))
        if r.random() < 0.5:
            pos = [None] * n
        elif r.random() < 0.7:
            r.shuffle(pos)
        d = {"k": "enum", "name": self.name(TYPE_W), "comment": self.comment(0.3),
             "items": [{"key": k, "pos": p, "comment": self.comment(0.15), "unit": self.unit(0.05)} for k, p in zip(keys, pos)]}
        self.add(mod, d)
        return d

    def add(self, mod, d):
        mod["defs"].append(d)
        self.defs[d["name"]] = d
        self.home[d["name"]] = mod["name"]

    home = None

    def ref(self, mod, name):
        """Make name usable in mod (import it if it lives elsewhere)."""
        h = self.home[name]
        if h != mod["name"]:
            for im in mod["imports"]:
                if im["from"] == h:
                    if name not in im["types"]:
                        im["types"].append(name)
                    break
            else:
                mod["imports"].append({"from": h, "types": [name]})
        return {"b": "REF", "name": name}

    def visible(self, mod, pred):
        """Names defined in mod or in earlier (lower) modules satisfying pred."""
        lvl = mod["level"]
        res = []
        for m in self.modules:
            if m is mod or m["level"] < lvl:
                for d in m["defs"]:
                    if pred(d):
                        res.append(d["name"])
        return res

    # fields ------------------------------------------------------------------
    def bits_type(self, mod, maxbits):
        """A bit-field type of at most maxbits bits."""
        r = self.r
        opts = ["uint"]
        if self.swarm["bool"]:
            opts += ["bool"]
        if self.swarm["enum"]:
            opts += ["enum"] * 2
        if self.swarm["named"]:
            opts += ["named"]
        for _ in range(4):
            k = r.choice(opts)
            if k == "bool":
                return {"b": "BOOLEAN"}
            if k == "uint":
                w = r.choice([b for b in range(1, min(maxbits, 63) + 1) if b not in (8, 16, 32, 64)])
                return self.uint(w)
            if k == "enum":
                if r.random() < 0.6:
                    c = self.visible(mod, lambda d: d["k"] == "enum" and (len(d["items"]) - 1).bit_length() <= maxbits)
                    if c:
                        return self.ref(mod, r.choice(c))
                d = self.new_enum(mod)
                if width({"b": "REF", "name": d["name"]}, self.defs) <= maxbits:
                    return {"b": "REF", "name": d["name"]}
            if k == "named":
                c = self.visible(mod, lambda d: d["k"] == "simple" and is_bits(d["t"], self.defs)
                                 and width(d["t"], self.defs) <= maxbits)
                if c and r.random() < 0.6:
                    return self.ref(mod, r.choice(c))
                t = {"b": "BOOLEAN"} if self.swarm["bool"] and r.random() < 0.3 else self.uint(
                    r.choice([b for b in range(1, min(maxbits, 63) + 1) if b not in (8, 16, 32, 64)]))
                return {"b": "REF", "name": self.new_simple(mod, t)["name"]}
        return self.uint(1)

    def byte_type(self, mod, depth):
        r = self.r
        opts = ["plain"] * 3
        if self.swarm["named"]:
            opts += ["named"] * 2
        if self.swarm["posix"]:
            opts += ["posix"] * 2
        if self.swarm["str"]:
            opts += ["str"]
        if self.swarm["arr"]:
            opts += ["arr"]
        if self.swarm["nest"] and depth < 3:
            opts += ["nest"] * 2
        k = r.choice(opts)
        if k == "plain":
            return self.scalar_bytes()
        if k == "named":
            c = self.visible(mod, lambda d: d["k"] == "simple" and not is_bits(d["t"], self.defs))
            if c and r.random() < 0.6:
                return self.ref(mod, r.choice(c))
            return {"b": "REF", "name": self.new_simple(mod, self.scalar_bytes())["name"]}
        if k == "posix":
            return self.posix(mod)
        if k == "str":
            return {"b": "STR", "kind": r.choice(["IA5String", "NumericString"]), "n": r.choice([1, 2, 3, 4, 8, 16, 33, 64, 100, 255])}
        if k == "arr":
            c = self.visible(mod, lambda d: d["k"] == "simple" and not is_bits(d["t"], self.defs))
            el = self.ref(mod, r.choice(c)) if c else {"b": "REF", "name": self.new_simple(mod, self.scalar_bytes())["name"]}
            return {"b": "ARR", "n": r.choice([1, 2, 3, 4, 5, 7, 16, 2, 3, 5, 64, 65, 100, 257]), "of": el}
        c = self.visible(mod, lambda d: d["k"] == "seq" and not any(f.get("wc") for f in d["fields"])
                         and not d.get("hdr") and self.closed(d["name"]))
        if c and r.random() < 0.6:
            return self.ref(mod, r.choice(c))
        return {"b": "REF", "name": self.new_seq(mod, depth + 1)["name"]}

    def closed(self, name):
        return not self.open_seqs or name not in self.open_seqs

    open_seqs = ()

    def fields(self, mod, depth, n=None):
        """Fields with all multi-byte members on byte boundaries."""
        r = self.r
        keys = {}
        out = []

        def key():
            for _ in range(200):
                k = r.choice(FIELD_W)
                if r.random() < 0.5:
                    k += f"-{r.randrange(50)}"
                if r.random() < self.long / 3:
                    k += "-" + self.tail()
                if r.random() < 0.05:
                    k = r.choice(HEADER_KEYS)
                if k not in keys:
                    keys[k] = 1
                    return k
            raise RuntimeError

        def add(t):
            f = {"key": key(), "t": t, "unit": self.unit(), "comment": self.comment()}
            if t["b"] == "REF" and self.defs[t["name"]]["k"] == "seq" and r.random() < 0.15 and self.flavour == "tlm" and self.swarm["partial"]:
                wc = [{"key": g["key"], "v": r.random() < 0.5 if g["t"]["b"] == "BOOLEAN" else r.randint(g["t"]["lo"], g["t"]["hi"])}
                      for g in self.defs[t["name"]]["fields"] if g["t"]["b"] in ("BOOLEAN", "INTEGER") and r.random() < 0.5
                      and g["key"] not in HEADER_KEYS]
                if wc:
                    f["wc"] = wc
            if self.swarm["le"] and not is_bits(t, self.defs) and t["b"] != "STR" and r.random() < 0.12 and not (
                    t["b"] == "REF" and self.defs[t["name"]]["k"] != "simple"):
                f["le"] = True
            out.append(f)

        n = n or r.choice([1, 2, 2, 3, 3, 4, 5])
        if self.many["fields"] and depth < 2 and r.random() < 0.4:
            n = r.choice([9, 12, 18])
        for _ in range(n):
            if r.random() < 0.45:
                total = 8 * r.choice([1, 1, 2, 2, 3, 4, 6, 8])
                left = total
                while left:
                    t = self.bits_type(mod, left)
                    w = width(t, self.defs)
                    if left - w in (8, 16, 32, 64) and r.random() < 0.5 and t["b"] == "INTEGER":
                        pass
                    add(t)
                    left -= w
                    if left in (8, 16, 32, 64) and r.random() < 0.3:
                        # a plain integer may not start inside a byte unless aligned
                        if (total - left) % 8 == 0:
                            add(self.uint(left))
                            left = 0
            else:
                add(self.byte_type(mod, depth))
        return out

    def new_seq(self, mod, depth=1, n=None):
        d = {"k": "seq", "name": self.name(TYPE_W), "comment": self.comment(), "fields": []}
        self.open_seqs = list(self.open_seqs) + [d["name"]]
        d["fields"] = self.fields(mod, depth, n)
        self.open_seqs = [x for x in self.open_seqs if x != d["name"]]
        self.add(mod, d)
        return d

    # ccsds --------------------------------------------------------------------
    def headers(self, mod, upper=None):
        """The header types; primary header in mod, the rest in upper."""
        r = self.r
        ident = {"k": "seq", "name": "Packet-ident", "comment": self.comment(), "hdr": True, "fields": [
            {"key": "packet-version-number", "t": {"b": "INTEGER", "lo": 0, "hi": 7}},
            {"key": "packet-type-is-cmd", "t": {"b": "BOOLEAN"}},
            {"key": "sec-hdr-flag-is-present", "t": {"b": "BOOLEAN"}},
            {"key": "application-process-identifier", "t": {"b": "INTEGER", "lo": 0, "hi": 2047}}]}
        ctl = {"k": "seq", "name": "Packet-seq-control", "comment": None, "hdr": True, "fields": [
            {"key": "sequence-flags", "t": {"b": "INTEGER", "lo": 0, "hi": 3}},
            {"key": "packet-sequence-count", "t": {"b": "INTEGER", "lo": 0, "hi": 16383}}]}
        prim = {"k": "seq", "name": "Ccsds-primary", "comment": self.comment(), "hdr": True, "fields": [
            {"key": "packet-identification", "t": {"b": "REF", "name": "Packet-ident"}},
            {"key": "packet-sequence-control", "t": {"b": "REF", "name": "Packet-seq-control"}},
            {"key": "packet-data-length", "t": {"b": "INTEGER", "lo": 0, "hi": 65535}}]}
        parts = [[{"key": "function-code", "t": {"b": "INTEGER", "lo": 0, "hi": 255}}],
                 [{"key": "is-urgent", "t": {"b": "BOOLEAN"}}, {"key": "channel", "t": {"b": "INTEGER", "lo": 0, "hi": 127}}],
                 [{"key": "seconds", "t": {"b": "INTEGER", "lo": 0, "hi": 4294967295}, "unit": "sec"}]]
        if r.random() < 0.5:
            parts += [[{"key": "sub-count", "t": {"b": "INTEGER", "lo": -32768, "hi": 32767}}],
                      [{"key": "scale", "t": {"b": "REAL", "lo": "-100.0", "hi": "100.0"}}],
                      [{"key": "epoch", "t": {"b": "INTEGER", "lo": 0, "hi": 18446744073709551615}}],
                      [{"key": "drift", "t": {"b": "INTEGER", "lo": -9223372036854775808, "hi": 9223372036854775807}}],
                      [{"key": "gain", "t": {"b": "REAL", "lo": "-1.0e300", "hi": "1.0e300"}}],
                      [{"key": "stamp", "t": {"b": "REF", "name": "Tm-stamp"}}]]
            parts = r.sample(parts, r.randrange(1, len(parts) + 1))
        sec = {"k": "seq", "name": "Tm-secondary", "comment": None, "hdr": True, "fields": [f for p in parts for f in p]}
        self.sec = sec["fields"]
        head = {"k": "seq", "name": "Tm-header", "comment": self.comment(), "hdr": True, "fields": [
            {"key": "primary", "t": {"b": "REF", "name": "Ccsds-primary"}},
            {"key": "secondary", "t": {"b": "REF", "name": "Tm-secondary"}}]}
        # values fixed by the header types themselves; messages fix the others
        self.own = set()
        if r.random() < 0.25:
            prim["fields"][1]["wc"] = [{"key": "sequence-flags", "v": r.choice([3, 3, 0, 1])}]
        if r.random() < 0.15:
            k, v = r.choice([("packet-version-number", 0), ("packet-type-is-cmd", False)])
            prim["fields"][0]["wc"] = [{"key": k, "v": v}]
            self.own.add(k)
        if r.random() < 0.35:
            val = {"function-code": 17, "is-urgent": True, "channel": 100, "seconds": 86400, "sub-count": -2, "scale": {"f": "2.5"},
                   "epoch": 10000000000000000001, "drift": -1234567890123456789, "gain": {"f": "3.1415926535897931"}}
            c = [f["key"] for f in sec["fields"] if f["key"] in val and r.random() < 0.5]
            if c:
                head["fields"][1]["wc"] = [{"key": k, "v": val[k]} for k in c]
                self.own.update(c)
        for f in sec["fields"]:
            if f["key"] == "stamp" and r.random() < 0.5:
                k = r.choice(["coarse", "fine"])
                f["wc"] = [{"key": k, "v": r.randrange(65536)}]
                self.own.add(k)
        ds = [head, prim, ident, ctl, sec]
        if any(f["key"] == "stamp" for f in sec["fields"]):
            ds.append({"k": "seq", "name": "Tm-stamp", "comment": self.comment(), "hdr": True, "fields": [
                {"key": "coarse", "t": {"b": "INTEGER", "lo": 0, "hi": 4294967295}},
                {"key": "fine", "t": {"b": "INTEGER", "lo": 0, "hi": 65535}}]})
        self.frame = None
        if r.random() < 0.2:
            # one more level above the header
            self.frame = [{"key": "header", "t": {"b": "REF", "name": "Tm-header"}}]
            if r.random() < 0.6:
                self.frame.append({"key": "frame-tag", "t": {"b": "INTEGER", "lo": 0, "hi": r.choice([255, 65535])}})
            ds.append({"k": "seq", "name": "Tm-frame", "comment": self.comment(), "hdr": True, "fields": self.frame})
        self.hkey = r.choice(["header", "header", "hdr", "tm-header", "packet"])
        if r.random() < 0.7:
            r.shuffle(ds)
        for d in ds:
            self.used[d["name"]] = 1
            self.add(upper if upper and d["name"].startswith("Tm-") else mod, d)
        if upper:
            self.ref(upper, "Ccsds-primary")

    def message(self, mod, apid):
        r = self.r
        full = r.random() < 0.8
        idv = [{"key": "packet-version-number", "v": r.choice([0, 0, 1, 3, 7])},
               {"key": "packet-type-is-cmd", "v": r.random() < 0.3},
               {"key": "sec-hdr-flag-is-present", "v": r.random() < 0.6},
               {"key": "application-process-identifier", "v": apid}]
        idv = [c for c in idv if c["key"] not in self.own]
        if not full:
            drop = r.randrange(len(idv))
            idv = [c for i, c in enumerate(idv) if i != drop]
        wc = [{"key": "primary", "v": {"wc": [{"key": "packet-identification", "v": {"wc": idv}}]}}]
        if r.random() < 0.5:
            val = {"function-code": lambda: r.randrange(256), "is-urgent": lambda: r.random() < 0.5,
                   "channel": lambda: r.randrange(128), "seconds": lambda: r.choice([0, 1, 4294967295, r.randrange(1 << 32)]),
                   "sub-count": lambda: r.choice([-32768, -1, 0, 32767]), "scale": lambda: {"f": repr(r.randrange(-400, 400) / 4)},
                   "epoch": lambda: r.choice([0, 1 << 53, (1 << 53) + 1, (1 << 64) - 1, r.randrange(1 << 64)]),
                   "drift": lambda: r.choice([-(1 << 63), (1 << 63) - 1, -1, r.randrange(-(1 << 63), 1 << 63)]),
                   "gain": lambda: {"f": r.choice(["0.1", "-0.1", "123456789.12345678", repr(r.uniform(-1000, 1000)),
                                                    repr(r.uniform(-9, -1) * 1e-9), repr(r.uniform(1, 9) * 1e200)])},
                   "stamp": lambda: {"wc": r.choice([[{"key": "fine", "v": r.randrange(65536)}], [{"key": "coarse", "v": 7}], [
                       {"key": "coarse", "v": r.randrange(1 << 32)}, {"key": "fine", "v": r.randrange(65536)}]])}}
            s = [{"key": f["key"], "v": val[f["key"]]()} for f in self.sec if r.random() < 0.5 and f["key"] not in self.own]
            for x in s:
                if isinstance(x["v"], dict) and "wc" in x["v"]:
                    x["v"]["wc"] = [y for y in x["v"]["wc"] if y["key"] not in self.own]
            s = [x for x in s if x["v"] != {"wc": []}]
            if r.random() < 0.3:
                r.shuffle(s)
            if s:
                wc.append({"key": "secondary", "v": {"wc": s}})
        if r.random() < 0.2:
            r.shuffle(idv)
            r.shuffle(wc)
        name = self.name(MSG_W)
        d = {"k": "seq", "name": name, "comment": self.comment(0.7), "msg": True, "fields": []}
        self.open_seqs = list(self.open_seqs) + [name]
        top = "Tm-header"
        if self.frame:
            top = "Tm-frame"
            wc = [{"key": "header", "v": {"wc": wc}}]
            if len(self.frame) > 1 and r.random() < 0.5:
                wc.insert(r.randrange(2), {"key": "frame-tag", "v": r.randrange(256)})
        hdr = {"key": self.hkey, "t": self.ref(mod, top), "wc": self.dress(wc), "comment": self.comment(0.2),
               "inline": r.random() < 0.3, "wcomment": self.comment(0.1)}
        fs = self.fields(mod, 0, r.choice([1, 2, 3, 4]))
        self.open_seqs = [x for x in self.open_seqs if x != name]
        if r.random() < 0.3:
            pl = {"k": "seq", "name": self.name(TYPE_W), "comment": self.comment(), "fields": fs}
            self.add(mod, pl)
            fs = [{"key": "payload", "t": {"b": "REF", "name": pl["name"]}, "comment": self.comment()}]
        d["fields"] = [hdr] + fs
        self.add(mod, d)
        return d

    # stored data ----------------------------------------------------------------
    def stored_type(self, mod, depth):
        r = self.r
        x = r.random()
        if x < 0.25 and self.swarm["posix"]:
            return self.posix(mod)
        if x < 0.45 and depth < 3 and self.swarm["nest"]:
            c = self.visible(mod, lambda d: d.get("st"))
            if c and r.random() < 0.5:
                return self.ref(mod, r.choice(c))
            return {"b": "REF", "name": self.stored_seq(mod, depth + 1)["name"]}
        if x < 0.62 and self.swarm["named"]:
            c = self.visible(mod, lambda d: d["k"] == "simple" and d["name"] not in POSIX and d["name"] not in FLT)
            if c and r.random() < 0.6:
                return self.ref(mod, r.choice(c))
            return {"b": "REF", "name": self.new_simple(mod, self.scalar_bytes())["name"]}
        return self.scalar_bytes()

    def stored_seq(self, mod, depth=0):
        r = self.r
        keys = []
        many = self.many["fields"] and depth < 2 and r.random() < 0.6
        while len(keys) < r.choice([9, 12, 20] if many else [1, 2, 3, 4, 5, 6]):
            k = r.choice(FIELD_W)
            if r.random() < 0.4:
                k += f"-{r.randrange(20)}"
            if k not in keys:
                keys.append(k)
        fs = [{"key": k, "t": self.stored_type(mod, depth), "unit": self.unit(), "comment": self.comment()} for k in keys]
        d = {"k": "seq", "name": self.name(TYPE_W), "comment": self.comment(), "fields": fs, "st": True}
        self.add(mod, d)
        return d

    def value(self, t):
        """A declared value within the type, as WITH COMPONENTS data."""
        r = self.r
        if t["b"] == "REF":
            d = self.defs[t["name"]]
            if d["k"] == "simple":
                return self.value(d["t"])
            cs = [{"key": f["key"], "v": self.value(f["t"])} for f in d["fields"]]
            if self.swarm["partial"] and r.random() < 0.4:
                cs = r.sample(cs, r.randrange(1, len(cs) + 1))
            if self.swarm["permute"] and r.random() < 0.5:
                r.shuffle(cs)
            return {"wc": cs, "comment": self.comment(0.05)}
        if t["b"] == "INTEGER":
            if self.zeros and t["lo"] <= 0 <= t["hi"]:
                return 0
            return r.choice([t["lo"], t["hi"], r.randint(t["lo"], t["hi"]), r.randint(t["lo"], t["hi"])])
        if t["b"] == "REAL":
            lo, hi = float(t["lo"]), float(t["hi"])
            if self.zeros and lo <= 0 <= hi:
                return {"f": "0.0"}
            if hi > 1e30:
                v = r.choice([r.uniform(-1e6, 1e6), float(f"{r.uniform(-9, 9):.6f}e{r.randrange(-20, 30)}"), 0.0, -0.0, -0.5])
            else:
                v = r.choice([r.uniform(lo, hi), lo, hi, round(r.uniform(lo, hi), 1)])
            s = repr(float(v))
            if "." not in s and "e" in s:
                s = s.replace("e", ".0e")
            return {"f": s}
        if t["b"] == "BOOLEAN":
            return r.random() < 0.5
        raise ValueError(t)

    zeros = False

    def stored_msg(self, mod):
        r = self.r
        self.zeros = r.random() < 0.12
        name = self.name(MSG_W)
        keys = r.sample(FIELD_W, r.choice([1, 1, 2, 3, 4, 4, 7]) if self.swarm["members"] else 1)
        fs = []
        for i, k in enumerate(keys):
            if i and r.random() < 0.4:
                fs.append({"key": k, "t": self.stored_type(mod, 1), "unit": self.unit(), "comment": self.comment(0.2)})
                continue
            if i and r.random() < 0.4:
                t = r.choice([f["t"] for f in fs if f.get("wc")])
            else:
                c = self.visible(mod, lambda d: d.get("st"))
                t = self.ref(mod, r.choice(c)) if c and r.random() < 0.35 else {"b": "REF", "name": self.stored_seq(mod, 0)["name"]}
            fs.append({"key": k, "t": t, "wc": self.dress(self.value(t)["wc"]), "comment": self.comment(0.2),
                       "inline": r.random() < 0.3, "wcomment": self.comment(0.1)})
        r.shuffle(fs)
        d = {"k": "seq", "name": name, "comment": self.comment(0.6), "stored": True, "fields": fs}
        self.add(mod, d)
        return d

    def dress(self, wc):
        """Comments between the components, where the grammar has them."""
        for x in wc:
            if isinstance(x["v"], dict) and "wc" in x["v"]:
                self.dress(x["v"]["wc"])
            c = self.comment(0.06)
            if c:
                x["comment"] = c
        return wc

    # project -----------------------------------------------------------------------
    def project(self):
        r = self.r
        self.home = {}
        names = []
        while len(names) < self.n_modules:
            w = r.choice(MOD_W)
            x = r.random()
            if x < 0.3:
                w += f"-{r.choice(['app', 'lib', 'if', 'hw'])}"
            elif x < 0.5:
                w += str(r.randrange(10))
            elif x < 0.5 + self.long:
                w += "-" + self.tail()
            if w not in names and w not in self.used:
                names.append(w)
        lvl = 0
        for i, n in enumerate(names):
            if i and r.random() < 0.75:
                lvl += 1
            self.modules.append({"name": n, "file": n.replace("-", r.choice("-_")) + ".asn", "comment": self.comment(0.4),
                                 "icomment": None, "imports": [], "defs": [], "level": lvl})
        apids = r.sample(range(0, 2048), 400)
        if r.random() < 0.4:
            apids = [a for a in apids if a not in APID_EDGES] + r.sample(APID_EDGES, r.choice([1, 2, 4]))
        for i, m in enumerate(self.modules):
            fl = self.flavour
            if fl == "stored":
                for _ in range(r.choice([5, 9, 11] if self.many["messages"] and r.random() < 0.5 else [1, 1, 2, 3])):
                    self.stored_msg(m)
                if r.random() < 0.3:
                    self.new_enum(m)
                if r.random() < 0.12:
                    self.new_choice(m, False)
            else:
                if i == 0:
                    split = len(self.modules) > 1 and r.random() < 0.25
                    self.headers(m, self.modules[1] if split else None)
                    first = 1 if split else 0
                for _ in range(r.choice([8, 14] if self.many["types"] and r.random() < 0.4 else [0, 1, 1, 2])):
                    k = r.random()
                    if k < 0.3:
                        self.new_simple(m, r.choice([self.scalar_bytes, self.uint])())
                    elif k < 0.5:
                        self.new_enum(m)
                    else:
                        self.new_seq(m)
                if i >= first and (i == len(self.modules) - 1 or r.random() < 0.6):
                    for _ in range(r.choice([5, 8, 9, 11] if self.many["messages"] and r.random() < 0.6 else [1, 1, 2, 3])):
                        self.message(m, apids.pop())
                if fl == "general":
                    self.extras(m)
                elif r.random() < 0.06:
                    self.new_choice(m, False)
            if not m["defs"]:
                self.new_enum(m)
            if self.swarm["forward"] and r.random() < 0.6:
                r.shuffle(m["defs"])
            for im in m["imports"]:
                if r.random() < 0.5:
                    r.shuffle(im["types"])
            if r.random() < 0.5:
                r.shuffle(m["imports"])
            if m["imports"]:
                m["icomment"] = self.comment(0.3)
            if r.random() < 0.08:
                m["crlf"] = True
        # superfluous imports
        for m in self.modules:
            if r.random() < 0.25:
                lower = [o for o in self.modules if o["level"] < m["level"] and o["defs"]]
                if lower:
                    o = r.choice(lower)
                    self.ref(m, r.choice([d["name"] for d in o["defs"]]))
        for m in self.modules:
            for im in list(m["imports"]):
                if len(im["types"]) > 1 and r.random() < 0.15:
                    k = r.randrange(1, len(im["types"]))
                    m["imports"].insert(r.randrange(len(m["imports"]) + 1), {"from": im["from"], "types": im["types"][k:]})
                    im["types"] = im["types"][:k]
            for im in m["imports"]:
                im["comment"] = self.comment(0.1)
                im["lines"] = r.random() < 0.2
        if self.swarm["shuffle"]:
            r.shuffle(self.modules)
        if r.random() < 0.12:
            # artefacts larger than one I/O buffer
            m = r.choice(self.modules)
            m["comment"] = " ".join(r.choice(COMMENT_W) for _ in range(r.choice([900, 2500, 5000])))
            d = r.choice(m["defs"])
            d["comment"] = " ".join(r.choice(COMMENT_W) for _ in range(r.choice([900, 2500])))
        p = {"flavour": self.flavour, "modules": self.modules}
        return p

    def extras(self, m):
        """Things outside the flight/ground contract that the commands accept."""
        r = self.r
        if r.random() < 0.4:
            self.new_choice(m, True)
        if r.random() < 0.4:
            # unaligned mixture
            fs = [{"key": f"{FIELD_W[j]}-u", "t": r.choice([self.uint, self.uint, self.scalar_bytes, self.sint])(),
                   "unit": self.unit(), "comment": self.comment()} for j in range(r.choice([2, 3, 5]))]
            self.add(m, {"k": "seq", "name": self.name(TYPE_W), "comment": self.comment(), "fields": fs})

    def new_choice(self, m, free):
        """free: also what makes the generated union unusable for a compiler."""
        r = self.r
        ch = {"k": "choice", "name": self.name(TYPE_W), "comment": self.comment(), "fields": []}
        cand = self.visible(m, lambda d: d["k"] in ("enum", "seq") and not any(f.get("wc") for f in d.get("fields", ())))
        for j in range(r.choice([1, 2, 3])):
            t = self.ref(m, r.choice(cand)) if cand and r.random() < 0.7 else {"b": "REF", "name": self.new_enum(m)["name"]}
            if free and r.random() < 0.2:
                t = {"b": "ARR", "n": r.choice([1, 2, 5]), "of": t}
            elif free and r.random() < 0.1:
                t = {"b": "STR", "kind": r.choice(["IA5String", "NumericString"]), "n": r.choice([1, 4, 9])}
            elif free and r.random() < 0.1:
                t = r.choice([self.uint, self.sint])()
            ch["fields"].append({"key": f"{FIELD_W[j]}-alt", "t": t, "comment": self.comment() if free else None,
                                 "unit": self.unit() if free else None})
        self.add(m, ch)


def project(rng, flavour, modules=None):
    p = Gen(rng, flavour, modules).project()
    for m in p["modules"]:
        m.pop("level", None)
    return p


# --------------------------------------------------------------------- commands

def commands(p):
    return {"tlm": ["cfs", "cosmos", "c"], "general": ["cfs", "cosmos", "c"],
            "stored": ["binary", "c", "cfs", "cosmos"]}[p["flavour"]]


def messages(p):
    """(module, [sequences that can be requested from COSMOS])"""
    res = []
    for m in p["modules"]:
        ms = [d["name"] for d in m["defs"] if d["k"] == "seq" and (d.get("msg") or d.get("stored"))]
        if ms:
            res.append((m["name"], ms))
    return res


def artefacts(p, cmd, opts=None):
    """Names of the files a command is responsible for."""
    opts = opts or {}
    c = lambda s: s.replace("-", "_")
    out = []
    if cmd == "cosmos":
        return [opts["target"] + ".txt"]
    for m in p["modules"]:
        n = c(m["name"])
        if cmd == "cfs":
            out += [n + "_msg.h", n + "_msgids.h"]
        elif cmd == "c":
            out += [n + ".h", n + ".c"]
        else:
            out.append(n + ".h")
            for d in m["defs"]:
                if d["k"] == "seq" and any(f.get("wc") for f in d["fields"]):
                    s = c(d["name"])
                    out.append(s[:1].lower() + s[1:] + ".bin")
    return out


def pick_opts(rng, p, cmd):
    """Free choices of one invocation, as data."""
    o = {"cmd": cmd}
    if cmd == "cosmos":
        ms = messages(p)
        mod, names = rng.choice(ms)
        k = rng.randrange(1, len(names) + 1)
        o["module"] = mod
        o["messages"] = rng.sample(names, k)
        o["target"] = rng.choice(["tlm", "ground", "t1", "station-a"])
    if cmd == "binary":
        o["endianness"] = rng.choice(["little-endian", "big-endian"])
    return o


def argv(p, o, outdir, files=None, modules=None, indir="."):
    files = [m["file"] for m in p["modules"]] if files is None else files
    files = [f if indir in (".", "") else f"{indir}/{f}" for f in files]
    cmd = o["cmd"]
    a = [f"generate-{cmd}"] + files
    if cmd == "cosmos":
        mod, msgs = o["module"], list(o["messages"])
        for x in modules or ():
            if x.startswith("=module "):
                mod = x.split()[1]
            elif x.startswith("=message "):
                msgs.insert(int(x.split()[1]), x.split()[2])
        a += [f"--asn1-module={mod}", "--asn1-messages=" + ",".join(msgs),
              f"--output-file-name={o['target']}"]
    else:
        mods = [m["name"] for m in p["modules"]] if modules is None else modules
        a += ["--asn1-modules=" + ",".join(mods)]
    if cmd == "binary":
        a += [f"--endianness={o['endianness']}"]
    if outdir is not None:
        a += [f"--output-dir={outdir}"]
    return a


# ------------------------------------------------------------------------- edits

def _leaves(q):
    """[(component, type)] of every value fixed in the model."""
    defs, res = all_defs(q), []

    def walk(wc, t):
        if t["b"] != "REF" or defs.get(t["name"], {}).get("k") != "seq":
            return
        types = {f["key"]: f["t"] for f in defs[t["name"]]["fields"]}
        for c in wc:
            t2 = types.get(c["key"])
            if t2 is None:
                continue
            if isinstance(c["v"], dict) and "wc" in c["v"]:
                walk(c["v"]["wc"], t2)
            else:
                if t2["b"] == "REF" and defs.get(t2["name"], {}).get("k") == "simple":
                    t2 = defs[t2["name"]]["t"]
                res.append((c, t2))

    for d in defs.values():
        for f in d.get("fields", ()):
            if f.get("wc") and not (d.get("hdr") and f["key"] == "packet-identification"):
                walk(f["wc"], f["t"])
    return res


def _retype(rng, t):
    """Another range of the same width."""
    if t["b"] == "INTEGER" and t["lo"] >= 0:
        n = t["hi"].bit_length()
        if n < 2:
            return False
        hi = rng.randrange(1 << (n - 1), 1 << n)
        if hi == t["hi"]:
            return False
        t["lo"], t["hi"] = min(t["lo"], hi), hi
        return True
    if t["b"] == "REAL" and abs(float(t["hi"])) < 1e6 and abs(float(t["lo"])) < 1e6:
        t["hi"] = repr(float(t["hi"]) + rng.choice([0.5, 1.0, 25.0]))
        return True
    return False


def edit_deep(rng, q):
    """Change what a name stands for, in place; the layout keeps its widths."""
    defs = all_defs(q)
    k = rng.choice(["enum", "enum", "simple", "field", "value", "value", "value", "text"])
    if k == "enum":
        c = [d for d in defs.values() if d["k"] == "enum"]
        if not c:
            return False
        d = rng.choice(c)
        it = d["items"]
        x = rng.random()
        keys = {i["key"] for e in c for i in e["items"]}
        if x < 0.5 and len(it) > 1:
            i, j = rng.sample(range(len(it)), 2)
            it[i]["key"], it[j]["key"] = it[j]["key"], it[i]["key"]
            return True
        new = f"{it[0]['key']}-r{rng.randrange(1000)}"
        if new in keys:
            return False
        if x < 0.75:
            rng.choice(it)["key"] = new
        elif len(it).bit_length() == max((len(it) - 1).bit_length(), 1):
            it.append({"key": new, "pos": None if it[0].get("pos") is None else len(it), "comment": None})
        else:
            return False
        return True
    if k == "simple":
        c = [d for d in defs.values() if d["k"] == "simple" and d["name"] not in POSIX and d["name"] not in FLT]
        fixed = {id(t) for _, t in _leaves(q)}
        c = [d for d in c if id(d["t"]) not in fixed]
        return bool(c) and _retype(rng, rng.choice(c)["t"])
    fs = [f for d in defs.values() if d["k"] == "seq" and not d.get("hdr") for f in d["fields"] if not f.get("wc")]
    if k == "field":
        fixed = {id(t) for _, t in _leaves(q)}
        fs = [f for f in fs if id(f["t"]) not in fixed]
        return bool(fs) and _retype(rng, rng.choice(fs)["t"])
    if k == "value":
        c = _leaves(q)
        if not c:
            return False
        x = rng.random()
        done = False
        for c, t in [rng.choice(c)] if x < 0.5 else c:
            zero = x > 0.8
            if isinstance(c["v"], bool):
                c["v"] = not c["v"] and not zero
            elif t["b"] == "INTEGER" and isinstance(c["v"], int):
                c["v"] = 0 if zero and t["lo"] <= 0 <= t["hi"] else rng.randint(t["lo"], t["hi"])
            elif t["b"] == "REAL" and isinstance(c["v"], dict) and float(t["lo"]) <= 0.0 <= float(t["hi"]) and (
                    zero or float(t["hi"]) >= 64.0):
                c["v"] = {"f": "0.0" if zero else repr(rng.randrange(256) / 4)}
            else:
                continue
            done = True
        return done
    if not fs:
        return False
    f = rng.choice(fs)
    if rng.random() < 0.5:
        f["unit"] = rng.choice([u for u in UNITS if u != f.get("unit")])
    else:
        f["comment"] = rng.choice(["changed", "reworded 2", None])
    return True


def edit(rng, p):
    """A small valid change of the model (new project)."""
    q = copy.deepcopy(p)
    if rng.random() < 0.45 and edit_deep(rng, q):
        return q
    m = rng.choice(q["modules"])
    x = rng.random()
    seqs = [d for d in m["defs"] if d["k"] == "seq" and not d.get("hdr")]
    used = {f["key"] for d in seqs for f in d["fields"]}
    if x < 0.35 and seqs:
        d = rng.choice(seqs)
        if d.get("st") or d.get("stored"):
            x = 0.6
        else:
            k = next(k for k in (f"{w}-n{rng.randrange(1000)}" for w in FIELD_W) if k not in used)
            n = rng.choice([8, 16, 32])
            d["fields"].append({"key": k, "t": {"b": "INTEGER", "lo": 0, "hi": (1 << n) - 1}, "unit": None,
                                "comment": rng.choice([None, "added later"])})
            return q
    if x < 0.55 and len(seqs) and not any(d.get("st") or d.get("stored") for d in seqs):
        d = rng.choice(seqs)
        c = [i for i, f in enumerate(d["fields"]) if not f.get("wc") and f["t"]["b"] in ("REF", "STR", "ARR") and
             not is_bits(f["t"], all_defs(q)) and len(d["fields"]) > 1]
        if c:
            del d["fields"][rng.choice(c)]
            return q
    if x < 0.8:
        d = rng.choice(m["defs"])
        d["comment"] = rng.choice(["revised", "v2", None, "long " * 20 + "text"]) if d.get("comment") != "revised" else "again"
        return q
    m["comment"] = rng.choice(["rev A", "rev B", "shorter", None]) if m.get("comment") not in ("rev A",) else "rev C"
    return q
