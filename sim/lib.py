"""What the property checks share: cases, baselines, fault choice, shrinking."""
import copy
import errno
import json

from . import gen
from .host import SimError as _SimError
from .host import (DIE_AFTER, DIE_BEFORE, DIE_PARTIAL, FAIL, FAIL_AFTER, PROCEED, SHORT, SIGINT, SIGNAL)

E = errno
SimError = _SimError


class Violation(Exception):
    """The property is broken: cls is stable under minimisation."""

    def __init__(self, cls, detail, trial=None):
        detail = detail if len(detail) < 700 else detail[:500] + " ... " + detail[-180:]
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail, self.trial = cls, detail, trial


class Discard(Exception):
    """The case says nothing about the property."""


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.sigs = set()
        self.discards = {}
        self.probes = {}

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.add(hash_of(parts))


def hash_of(x):
    import hashlib
    return int(hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16], 16)


# --------------------------------------------------------------------- projects

def put_project(host, p, indir="work"):
    for f, t in gen.render(p).items():
        host.put(f"{indir}/{f}", t)


def files_of(tree):
    return {k: v for k, v in tree.items() if v is not None}


def baseline(host, p, o, out="out", env=None):
    """Undisturbed run on an empty machine -> (proc, artefacts); Discard if the
    tool does not accept the project."""
    host.fresh()
    put_project(host, p)
    pr = host.run(gen.argv(p, o, out), env=env)
    if pr.ended != "exit" or pr.code() != 0:
        raise Discard("baseline rejected")
    return pr, files_of(host.tree("work/" + out))


def pick_project(rng, flavours=("tlm", "general", "stored"), modules=None):
    return gen.project(rng, rng.choice(list(flavours)), modules)


def pick_run(rng, flavours=("tlm", "general", "stored"), modules=None, cmds=None):
    p = pick_project(rng, flavours, modules)
    c = [c for c in gen.commands(p) if cmds is None or c in cmds]
    if p["flavour"] == "stored" and "binary" in c and rng.random() < 0.5:
        cmd = "binary"
    else:
        cmd = rng.choice(c)
    return p, gen.pick_opts(rng, p, cmd)


def describe(tree_got, tree_want):
    d = []
    for k in sorted(set(tree_got) | set(tree_want)):
        a, b = tree_got.get(k, "absent"), tree_want.get(k, "absent")
        if a != b:
            la = len(a) if isinstance(a, bytes) else a
            lb = len(b) if isinstance(b, bytes) else b
            d.append(f"{k}: found {la}, expected {lb}" + (" (sizes; content differs)" if isinstance(a, bytes) and isinstance(b, bytes) else ""))
    return "; ".join(d[:6])


# ----------------------------------------------------------------------- faults

ERRS = {
    "stat": [E.EACCES, E.EIO, E.ENOENT, E.ENOTDIR, E.ELOOP, E.ENOMEM, E.ESTALE],
    "access": [E.EACCES, E.EIO, E.ENOENT],
    "openr": [E.EACCES, E.EIO, E.ENOENT, E.EMFILE, E.ENFILE, E.ENOMEM, E.EPERM, E.ETIMEDOUT],
    "opend": [E.EACCES, E.EIO, E.ENOENT],
    "fstat": [E.EIO, E.ENOMEM],
    "read": [E.EIO, E.EIO, E.ENOMEM, E.EAGAIN, E.ESTALE, E.ETIMEDOUT],
    "close": [E.EIO, E.ENOSPC, E.EDQUOT, E.ESTALE],
    "mkdir": [E.ENOSPC, E.EACCES, E.EROFS, E.EIO, E.EDQUOT, E.EMLINK, E.EPERM, E.ENOENT, E.ENOTDIR, E.EEXIST],
    "openw": [E.EACCES, E.ENOSPC, E.EROFS, E.EMFILE, E.EIO, E.EISDIR, E.EDQUOT, E.ETXTBSY, E.EPERM, E.ENOENT, E.ENOTDIR,
              E.EBUSY, E.ENAMETOOLONG],
    "write": [E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG, E.ENOSPC, E.EAGAIN, E.ESTALE, E.ETIMEDOUT, E.EPERM],
    "fsync": [E.EIO, E.ENOSPC],
}
OTHER_ERRS = [E.EIO, E.EACCES, E.ENOSPC]


def locate(ops, i):
    """Address of op i that survives changes of the project: op, path, ordinal
    among the calls of that kind on that path."""
    op, path = ops[i][0], ops[i][1]
    n = sum(1 for x in ops[:i] if x[0] == op and path in x[1])
    return {"t": "rule", "ops": [op], "path": path, "skip": n, "count": 1}


def pick_fault(rng, ops, kinds=("err", "short", "eintr", "sigint", "kill", "diskfull", "persist")):
    """One explicit fault somewhere in the trace of a clean run."""
    ops_i = [i for i, o in enumerate(ops) if o[0] not in ("mark", "sleep")]
    wr = [i for i in ops_i if ops[i][0] in ("openw", "write", "close", "mkdir", "rename", "fsync")]
    kind = rng.choice(list(kinds))
    if kind == "diskfull":
        total = sum(o[3] for o in ops if o[0] == "write")
        return {"t": "diskfull", "bytes": rng.choice([0, rng.randrange(total + 1), rng.randrange(total + 1)]),
                "errno": rng.choice([E.ENOSPC, E.EDQUOT])}
    if kind == "readonly":
        # one artefact, or everything, cannot be modified
        c = sorted({ops[j][1] for j in ops_i if ops[j][0] == "openw"})
        return {"t": "rule", "ops": ["openw", "access", "rename", "unlink", "mkdir"], "path": rng.choice(c + ["work/"]) if c else "work/",
                "skip": 0, "count": -1, "v": FAIL, "a": rng.choice([E.EACCES, E.EACCES, E.EROFS, E.EPERM])}
    i = rng.choice(wr) if wr and rng.random() < 0.6 else rng.choice(ops_i)
    if kind == "short":
        c = [j for j in ops_i if ops[j][0] in ("read", "write")]
        f = locate(ops, rng.choice(c))
        f.update(v=SHORT, frac=rng.choice([0.0, 0.1, 0.5, 0.9, rng.random()]))
        if rng.random() < 0.4:
            f["count"] = rng.choice([2, 3, 40])
        return f
    if kind == "eintr":
        c = [j for j in ops_i if ops[j][0] in ("read", "write", "openr", "openw")]
        f = locate(ops, rng.choice(c))
        f.update(v=FAIL, a=E.EINTR)
        if rng.random() < 0.4:
            f["count"] = rng.choice([2, 3, 7])
        return f
    f = locate(ops, i)
    op = ops[i][0]
    if kind == "sigint":
        f.update(v=SIGINT, a=E.EINTR)
    elif kind == "signal":
        f.update(v=SIGNAL, a=rng.choice([15, 15, 1, 3]))
    elif kind == "kill":
        f.update(v=rng.choice([DIE_BEFORE, DIE_AFTER] + ([DIE_PARTIAL] * 2 if op == "write" else [])), frac=rng.random())
    else:
        f.update(v=FAIL_AFTER if op in ("close", "fsync") or (op == "write" and rng.random() < 0.15) else FAIL,
                 a=rng.choice(ERRS.get(op, OTHER_ERRS)))
        if kind == "persist":
            f["count"] = -1
            if rng.random() < 0.5:
                f["path"] = ""
                f["skip"] = sum(1 for x in ops[:i] if x[0] == op)
    return f


def benign(f):
    """A disturbance that POSIX programs have to live with."""
    if f["t"] != "rule":
        return False
    if f["v"] == SHORT:
        return True
    return f["v"] == FAIL and f["a"] == E.EINTR and set(f["ops"]) <= {"read", "write", "openr", "openw"} and f["count"] >= 0


def fault_sig(fs):
    return [(f["t"], f.get("ops"), f.get("v"), f.get("a"), f.get("skip"), (f.get("path") or "")[-4:],
             f.get("count"), round(f.get("frac", 0), 1)) for f in fs]


def fire_sig(pr):
    return [(op, v, a) for (_, op, v, a) in pr.fired[:6]]


# -------------------------------------------------------------------- shrinking

def shrink_project(p, keep_modules=False):
    """Smaller candidates, most drastic first.  Invalid ones are harmless: the
    tool rejects them and the case is discarded."""
    ms = p["modules"]
    if len(ms) > 1 and not keep_modules:
        for i in range(len(ms)):
            q = copy.deepcopy(p)
            n = q["modules"].pop(i)["name"]
            for m in q["modules"]:
                m["imports"] = [im for im in m["imports"] if im["from"] != n]
            yield q
    for i, m in enumerate(ms):
        for j in range(len(m["defs"])):
            if len(m["defs"]) > 1:
                q = copy.deepcopy(p)
                n = q["modules"][i]["defs"].pop(j)["name"]
                for mm in q["modules"]:
                    for im in mm["imports"]:
                        im["types"] = [t for t in im["types"] if t != n]
                    mm["imports"] = [im for im in mm["imports"] if im["types"]]
                yield q
    for i, m in enumerate(ms):
        for j, d in enumerate(m["defs"]):
            for k in range(len(d.get("fields", ()))):
                if len(d["fields"]) > 1:
                    q = copy.deepcopy(p)
                    del q["modules"][i]["defs"][j]["fields"][k]
                    yield q
            for k, f in enumerate(d.get("fields", ())):
                if len(f.get("wc") or ()) > 1:
                    for n in range(len(f["wc"])):
                        q = copy.deepcopy(p)
                        del q["modules"][i]["defs"][j]["fields"][k]["wc"][n]
                        yield q
            if d["k"] == "enum" and len(d["items"]) > 2:
                q = copy.deepcopy(p)
                del q["modules"][i]["defs"][j]["items"][-1]
                yield q
    for i, m in enumerate(ms):
        for k in range(len(m["imports"])):
            q = copy.deepcopy(p)
            del q["modules"][i]["imports"][k]
            yield q
        for k, im in enumerate(m["imports"]):
            for t in range(len(im["types"])):
                if len(im["types"]) > 1:
                    q = copy.deepcopy(p)
                    del q["modules"][i]["imports"][k]["types"][t]
                    yield q
    q = copy.deepcopy(p)
    ch = 0
    for m in q["modules"]:
        for k in ("comment", "icomment"):
            ch += bool(m.get(k))
            m[k] = None
        for d in m["defs"]:
            ch += bool(d.get("comment"))
            d["comment"] = None
            for f in d.get("fields", ()) or d.get("items", ()):
                ch += bool(f.get("comment") or f.get("unit"))
                f["comment"] = f["unit"] = None
    if ch:
        yield q


def shrink_list(lst, low=0):
    """Sublists: halves first, then single removals."""
    n = len(lst)
    if n <= low:
        return
    if n >= 4:
        yield lst[n // 2:]
        yield lst[:n // 2]
    for i in range(n):
        if n - 1 >= low:
            yield lst[:i] + lst[i + 1:]


def with_(case, **kw):
    c = dict(case)
    c.update(kw)
    return c


def shrink_trials(case, key="trials"):
    if len(case[key]) > 1:
        for t in case[key]:
            yield with_(case, **{key: [t]})


def shrink_faults(case, get, put):
    for sub in shrink_list(get(case)):
        yield put(case, sub)


def default_shrink(case):
    yield from shrink_trials(case)
    if len(case["trials"]) == 1:
        t = case["trials"][0]
        if "faults" in t:
            for sub in shrink_list(t["faults"]):
                yield with_(case, trials=[with_(t, faults=sub)])
    for q in shrink_project(case["project"]):
        yield with_(case, project=q)
