"""C03  same inputs, same outcome in every environment."""
import json
import os

from .. import gen, lib, mutate
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 320, "thorough": 9000}
RULE = ("evaluation = one run of the same texts and command line in another simulated environment (hash seed, heap layout, "
        "collector thresholds, clock and its pace, pid, random source, host name, processors, variables (also those the run asks for), working directory, location, time stamps, files it looks for), compared "
        "with a reference run; half of the projects are valid, half inconsistent; non-trivial = the environments differ in "
        "hash seed or heap layout (always at least one such difference); distinct by project and environment")
ENV_KEYS = ["USER", "LOGNAME", "HOSTNAME", "COLUMNS", "LINES", "TERM", "SOURCE_DATE_EPOCH", "TZ", "LANG", "LC_ALL", "DEBUG",
            "VERBOSE", "NO_COLOR", "FORCE_COLOR", "ASN1_PATH", "OUTPUT_DIR", "EDITOR", "CI", "PWD", "OLDPWD", "SHELL"]
HASHSEEDS = 5
UNASSERTED = 100  # an interpreter with PYTHONOPTIMIZE=1
SAME = [k for k in mutate.KINDS if k != "unreadable-file"] + ["import-unknown-type"] * 5 + ["duplicate-file", "duplicate-module",
        "modules-missing", "modules-extra"] * 3


def environment(rng):
    e = {"hashseed": rng.randrange(HASHSEEDS), "perturb": rng.choice([0, rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30)]),
         "gc": rng.choice([None, [1, 1, 1], [5, 2, 2], [100000, 50, 50], [13, 7, 3]]),
         "pid": rng.randrange(2, 4_000_000), "seed": rng.randrange(1 << 30),
         "pace": rng.choice([0, 0, 1_000_000, 3_000_000_000, 4000_000_000_000]),
         "clock": rng.choice([0, 0, rng.randrange(-40 * 365, 400 * 365)]),
         "root": rng.choice(["root", "root", "r2", "some where", "a-very-long-directory-name" * 4]),
         "cwd": rng.choice(["work", "work", "w", "deep/er/dir", "work dir"]),
         "mtimes": rng.choice(["now", "now", "epoch", "shuffled"]), "env": {},
         "at": rng.choice(["", "", "", "home", "tmp", "out", "/"])}
    for k in ENV_KEYS:
        if rng.random() < 0.25:
            e["env"][k] = rng.choice(["1", "0", "80", "20", "alice", "/nonexistent", "de_DE.UTF-8", "C", "UTC", "Asia/Tokyo"])
    if rng.random() < 0.12:
        e["hashseed"] = UNASSERTED
    return e


REFENV = {"hashseed": 0, "perturb": 0, "gc": None, "pid": 4242, "seed": 7, "pace": 0, "clock": 0, "root": "root", "cwd": "work",
          "mtimes": "now", "env": {}, "at": ""}


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng)
    muts = []
    if rng.random() < 0.5:
        if rng.random() < 0.4:
            muts = mutate.pick_some(rng, p, o, rng.choice(SAME), rng.choice([2, 3, 5]))
        for _ in range(rng.choice([0, 0, 1, 2]) if muts else rng.choice([1, 1, 1, 1, 2, 3])):
            m = mutate.pick(rng, p, o)
            if m and m["kind"] != "unreadable-file":
                try:
                    mutate.apply(p, o, muts + [m])
                    muts = muts + [m]
                except mutate.Inapplicable:
                    pass
    envs = [environment(rng) for _ in range(5)]
    envs[0]["hashseed"] = 1 + rng.randrange(HASHSEEDS - 1)
    if muts:
        envs[1]["hashseed"] = UNASSERTED
    # other inconsistent versions of the project, for the interpreter without assertions only
    others = []
    for _ in range(2):
        m = mutate.pick(rng, p, o)
        if m and m["kind"] != "unreadable-file":
            others.append(m)
    return {"project": p, "opts": o, "muts": muts, "trials": envs, "others": others,
            "values": rng.sample(["1", "0", "", "true", "x", "/nonexistent", "120", "de_DE.UTF-8"], 2)}


def sample(case):
    return {"command": case["opts"]["cmd"], "mutations": case["muts"], "environments": case["trials"][:2]}


def shrink(case):
    if case.get("others"):
        yield with_(case, others=[])
        for m in case["others"]:
            yield with_(case, others=[], trials=[with_(REFENV, hashseed=UNASSERTED)], muts=[m], values=[])
    if case.get("values"):
        yield with_(case, values=[])
        if case["trials"]:
            yield with_(case, trials=[])
        if len(case["values"]) > 1:
            for v in case["values"]:
                yield with_(case, values=[v])
    yield from lib.shrink_trials(case)
    for sub in lib.shrink_list(case["muts"]):
        yield with_(case, muts=sub)
    if len(case["trials"]) == 1:
        t = case["trials"][0]
        for k, v in REFENV.items():
            if t[k] != v:
                yield with_(case, trials=[with_(t, **{k: v})])
        for k in t["env"]:
            yield with_(case, trials=[with_(t, env={a: b for a, b in t["env"].items() if a != k})])
    for q in lib.shrink_project(case["project"]):
        yield with_(case, project=q)


def outcome(host, case, e, spy=None):
    p, o = case["project"], case["opts"]
    texts, files, modules, _ = mutate.apply(p, o, case["muts"])
    named = {os.path.basename(f) for f in (files or ())}
    host.fresh(e["root"])
    host.now += e["clock"] * 86_400_000_000_000
    mutate.put(host, texts, e["cwd"])
    os.makedirs(host.p(e["cwd"]), exist_ok=True)
    if e["mtimes"] != "now":
        for i, f in enumerate(sorted(texts)):
            if isinstance(texts[f], str):
                t = 0 if e["mtimes"] == "epoch" else (hash_int(f) % 2_000_000_000) * 1_000_000_000
                os.utime(host.p(f"{e['cwd']}/{f}"), ns=(t, t))
    indir, out, cwd = ".", "out", e["cwd"]
    if e.get("at"):
        # called from elsewhere, with absolute paths
        indir, out = host.p(cwd), host.p(cwd + "/out")
        cwd = {"home": "home", "tmp": "tmp", "out": e["cwd"] + "/out", "/": "", "cwd": e["cwd"]}[e["at"]]
        os.makedirs(host.p(cwd), exist_ok=True)
    for f in e.get("put", ()):
        if not os.path.lexists(host.p(f)):
            host.put(f, "")
    pr = host.run(gen.argv(p, o, out, files=files, modules=modules, indir=indir), cwd=cwd, hashseed=e["hashseed"], env=e["env"],
                  seed=e["seed"], perturb=e["perturb"], gc=e["gc"], pid=e["pid"], pace=e.get("pace", 0), spy=spy is not None)
    if spy is not None:
        spy.extend(m[4:] for m, _ in pr.marks if m.startswith("env:"))
        own = {f"{e['cwd']}/{f}" for f in texts}
        for op, path, *_ in pr.ops:
            # files looked for that are neither inputs nor in the way of the output
            path = os.path.normpath(path)
            if (op in ("stat", "access", "openr") and not path.startswith(("<", "/", "..")) and path not in own
                    and not (e["cwd"] + "/out").startswith(path) and not path.startswith(e["cwd"] + "/out/")
                    and os.path.basename(path) not in named and not os.path.lexists(host.p(path)) and os.path.isdir(os.path.dirname(host.p(path)))):
                spy.append("=" + path)
    out = lib.files_of(host.tree(e["cwd"] + "/out"))
    txt = []
    for b in (pr.out(), pr.err()):
        b = b.replace(host.p(e["cwd"]).encode(), b"<CWD>").replace(host.root.encode(), b"<ROOT>")
        txt.append(b.decode(errors="replace"))
    return {"status": pr.code() if pr.ended == "exit" else pr.ended, "artefacts": out, "stdout": txt[0], "stderr": txt[1]}


def hash_int(s):
    return lib.hash_of(s)


def run_case(host, case, stats):
    try:
        mutate.apply(case["project"], case["opts"], case["muts"])
    except mutate.Inapplicable:
        raise lib.Discard("mutation does not apply")
    spy = []
    ref = outcome(host, case, REFENV, spy)
    if not case["muts"] and ref["status"] != 0:
        raise lib.Discard("baseline rejected")
    # variables the run asked for: set them, one environment for each value
    trials = list(case["trials"])
    sought = sorted({x[1:] for x in spy if x.startswith("=")})
    asked = sorted({x for x in spy if not x.startswith("=")} - {"LD_PRELOAD", "PATH", "TMPDIR", "HOME"})
    if sought and case.get("values"):
        stats.probe("files-looked-for", len(sought))
        trials.append(with_(REFENV, put=sought))
    stats.probe("variables-asked-for", len(asked))
    for v in case.get("values", ()):
        if asked:
            trials.append(with_(REFENV, env={k: v for k in asked}))
    refs = {"": ref}
    for n, e in enumerate(trials):
        how = "abs" if e.get("at") else ""
        if how not in refs:
            refs[how] = outcome(host, case, with_(REFENV, at="cwd"))
        ref = refs[how]
        got = outcome(host, case, e)
        stats.evaluations += 1
        if e["hashseed"] or e["perturb"]:
            if e["hashseed"] == UNASSERTED:
                host.note_fault("env:no-assertions")
            stats.sig(json.dumps(case["project"])[:3000], case["muts"], e)
        for k in ("hashseed", "perturb", "gc", "pid", "seed", "pace", "clock", "root", "cwd", "mtimes", "env", "at"):
            if e[k] != REFENV[k]:
                host.note_fault("env:" + k)
        stats.probe("accepted" if got["status"] == 0 else "rejected")
        for k in ("status", "artefacts", "stdout", "stderr"):
            if e["hashseed"] == UNASSERTED and ref["status"] != 0 and k in ("stdout", "stderr"):
                # without assertions another statement may report the same failure
                continue
            if got[k] != ref[k]:
                diff = {x: e[x] for x in e if e[x] != REFENV.get(x)}
                d = lib.describe(got[k], ref[k]) if k == "artefacts" else f"{str(got[k])[-300:]!r} instead of {str(ref[k])[-300:]!r}"
                raise Violation(f"{k}-depends-on-environment", f"{case['opts']['cmd']} in {json.dumps(diff)}: {d}",
                                n if n < len(case["trials"]) else None)
    for m in case.get("others", ()):
        other = with_(case, muts=[m])
        try:
            mutate.apply(case["project"], case["opts"], [m])
        except mutate.Inapplicable:
            continue
        ref = outcome(host, other, REFENV)
        got = outcome(host, other, with_(REFENV, hashseed=UNASSERTED))
        host.note_fault("env:no-assertions")
        stats.evaluations += 1
        stats.sig(json.dumps(case["project"])[:3000], [m], "no assertions")
        for k in ("status", "artefacts"):
            if got[k] != ref[k]:
                d = lib.describe(got[k], ref[k]) if k == "artefacts" else f"{got[k]!r} instead of {ref[k]!r}"
                raise Violation(f"{k}-depends-on-environment",
                                f"{case['opts']['cmd']} with {m['kind']} in an interpreter without assertions: {d}", None)
