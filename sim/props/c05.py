"""C05  a run touches nothing but its own artefacts."""
import os

from .. import gen, lib, mutate
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 260, "thorough": 7000}
RULE = ("evaluation = one run (undisturbed, failing by injected faults, killed at a system call, or on an inconsistent "
        "project) on a machine with bystander files in the output directory, next to it, in TMPDIR and HOME; the whole "
        "machine is compared before and after; non-trivial = a fault fired, a mutation applies or the run wrote artefacts; "
        "distinct by command, location, and fired faults with positions")
OUTS = ["out", "out", "a/b/c", "gen/../gen2", ".", "../sibling", "ABS/abs/out", "out/", None]
BYSTANDERS = ["notes.txt", "main.c", "old_msg.h", "tlm.txt.bak", ".hidden", "README", "zz.bin", "x.h", "sub/inner.h",
              "backup~", "tmp", "core"]
NEAR = [lambda f: f + ".bak", lambda f: f + "~", lambda f: f + ".tmp", lambda f: "." + f + ".swp", lambda f: f + ".old",
        lambda f: f + ".orig", lambda f: f + ".new", lambda f: f + ".lock", lambda f: "." + f, lambda f: f + ".1",
        lambda f: stem(f) + ".o", lambda f: stem(f) + ".c", lambda f: stem(f) + ".h", lambda f: stem(f) + ".bin",
        lambda f: stem(f) + ".txt", lambda f: stem(f) + ".tmp", lambda f: stem(f) + ".bak", lambda f: stem(f) + "_msg.h",
        lambda f: stem(f) + "_msgids.h", lambda f: stem(f) + "_2.h", lambda f: stem(f), lambda f: f.upper(),
        lambda f: "old_" + f, lambda f: f.replace("_msgids", ""), lambda f: f.replace("_msg", ""), lambda f: "tmp_" + f]


def stem(f):
    return f.rsplit(".", 1)[0]


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng)
    out = rng.choice(OUTS)
    pr, _ = baseline(host, p, o, out)
    trials = []
    for _ in range(10):
        x = rng.random()
        fs, mu = [], []
        if x < 0.15:
            pass
        elif x < 0.9:
            fs = [lib.pick_fault(rng, pr.ops, ("err", "kill", "kill", "kill", "sigint", "diskfull", "persist"))
                  for _ in range(rng.choice([1, 1, 2]))]
        else:
            m = mutate.pick(rng, p, o)
            mu = [m] if m else []
        trials.append({"faults": fs, "muts": mu, "by": rng.sample(range(len(BYSTANDERS)), rng.randrange(1, 7)),
                       "near": [{"i": rng.randrange(16), "n": rng.randrange(len(NEAR))} for _ in range(rng.choice([0, 4, 8, 16]))],
                       "pre": rng.choice(["none", "none", "dir", "empty", "old", "old"]),
                       "mode": rng.choice([None, None, 0o700, 0o750, 0o775, 0o777]),
                       "fmode": rng.choice([None, None, 0o600, 0o640, 0o444, 0o755])})
    return {"project": p, "opts": o, "out": out, "trials": trials}


def sample(case):
    return {"command": case["opts"]["cmd"], "out": case["out"], "trials": case["trials"][:2]}


shrink = lib.default_shrink


def out_arg(host, out):
    return host.p(out[4:]) if out and out.startswith("ABS/") else out


def out_rel(o, out):
    """Output directory relative to the root of the machine."""
    if out is None:
        return "work/output/" + o["cmd"]
    if out.startswith("ABS/"):
        return out[4:]
    return os.path.normpath("work/" + out)


def baseline(host, p, o, out):
    host.fresh()
    lib.put_project(host, p)
    pr = host.run(gen.argv(p, o, out_arg(host, out)))
    if pr.ended != "exit" or pr.code() != 0:
        raise lib.Discard("baseline rejected")
    return pr, lib.files_of(host.tree(out_rel(o, out)))


def run_case(host, case, stats):
    p, o, out = case["project"], case["opts"], case["out"]
    orel = out_rel(o, out)
    want = gen.artefacts(p, o["cmd"], o)
    own = {os.path.normpath(f"{orel}/{f}") for f in want}
    # "gen/../gen2" also creates gen
    parents = set()
    raw = "work/output/" + o["cmd"] if out is None else out[4:] if out.startswith("ABS/") else "work/" + out
    parts = raw.split("/")
    for i in range(1, len(parts) + 1):
        parents.add(os.path.normpath("/".join(parts[:i])))
    inputs = {f"work/{f}" for f in gen.render(p)}
    for n, t in enumerate(case["trials"]):
        try:
            texts, files, modules, mf = mutate.apply(p, o, t["muts"])
        except mutate.Inapplicable:
            continue
        host.fresh()
        mutate.put(host, texts)
        if t["pre"] != "none":
            os.makedirs(host.p(orel), exist_ok=True)
        if t["pre"] == "old":
            for f in want:
                host.put(f"{orel}/{f}", "old\n" * 9)
        names = [(BYSTANDERS[i], ["work", "tmp", "home", "", "work/other"]) for i in t["by"]]
        for i in t.get("near", ()):
            # names next to those of the artefacts
            f = want[i["i"] % len(want)]
            names.append((NEAR[i["n"] % len(NEAR)](f), []))
        for b, dirs in names:
            dirs = dirs + ([orel] if t["pre"] in ("dir", "old") else [])
            for d in dirs:
                q = os.path.normpath(f"{d}/{b}" if d else b)
                if q not in own and q not in parents and q not in inputs and not os.path.exists(host.p(q)):
                    host.put(q, f"bystander {q}\n" * 3)
                    if t.get("fmode"):
                        os.chmod(host.p(q), t["fmode"])
        if t.get("mode") and t["pre"] != "none" and orel not in (".", ""):
            os.chmod(host.p(orel), t["mode"])
        before = host.tree()
        modes = modes_of(host, before)
        pr = host.run(gen.argv(p, o, out_arg(host, out), files=files, modules=modules), faults=t["faults"] + mf)
        stats.evaluations += 1
        after = host.tree()
        ok = pr.ended == "exit" and pr.code() == 0
        if pr.fired or t["muts"] or ok:
            stats.sig(o["cmd"], out, lib.fire_sig(pr), lib.fault_sig(t["faults"]), t["muts"], t["pre"])
        stats.probe("exit 0" if ok else "killed" if pr.code() is not None and pr.code() < 0 else "failed")
        where = f"{o['cmd']} out={out} status={pr.code()} faults fired {lib.fire_sig(pr)} {t['muts']}"
        if pr.escapes:
            raise Violation("touches-outside-machine", f"{where}: attempted {pr.escapes[:3]}", n)
        for q in sorted(set(before) | set(after)):
            if q in own:
                if q in after and after[q] is None or isinstance(after.get(q), tuple):
                    raise Violation("artefact-is-not-a-file", f"{where}: {q}", n)
                if ok and q in before and q not in after:
                    raise Violation("artefact-deleted", f"{where}: {q}", n)
                continue
            if q in before and q not in after:
                raise Violation("bystander-deleted", f"{where}: {q}", n)
            if q in before and after[q] != before[q]:
                raise Violation("input-changed" if q in inputs else "bystander-changed", f"{where}: {q}", n)
            if q not in before and not (after[q] is None and q in parents):
                raise Violation("extra-file-left-behind", f"{where}: {q}", n)
        m2 = modes_of(host, before)
        for q, m in modes.items():
            if q not in own and m2.get(q) != m:
                raise Violation("bystander-changed", f"{where}: permissions of {q}", n)


def modes_of(host, tree):
    r = {}
    for q in tree:
        try:
            r[q] = os.lstat(host.p(q)).st_mode
        except FileNotFoundError:
            pass
    return r
