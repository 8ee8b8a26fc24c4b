"""C08  a run works on one version of each input file."""
import copy
import itertools

from .. import gen, lib
from ..host import FAIL, SHORT
from ..lib import Violation, with_
from .common import *  # noqa

CASES = {"quick": 440, "thorough": 10000}
RULE = ("evaluation = one run during which one or two input files are replaced atomically (once or twice each) between two "
        "seeded system calls, compared with clean runs on every combination of versions; non-trivial = a replacement fell "
        "between the first and the last call of the run and the versions have different outcomes; distinct by project, "
        "versions and replacement points")
STUB = STUB + ["an editor or build step that replaces input files while the tool runs (rename over the old file)"]


def broken(rng, text):
    x = rng.random()
    if x < 0.35:
        return text[: rng.randrange(len(text))]
    if x < 0.7:
        return text.replace("::=", "::", 1)
    return text.replace("END\n", "  Dangling ::= SEQUENCE {\n    x Undefined-type\n  }\n\nEND\n")


def edit_file(rng, p, i):
    """New text of module i: a valid edit that stays inside this file, or a broken one."""
    for _ in range(8):
        q = gen.edit(rng, p)
        texts, old = gen.render(q), gen.render(p)
        f = p["modules"][i]["file"]
        if texts[f] != old[f] and all(texts[g] == old[g] for g in old if g != f):
            return texts[f]
    q = copy.deepcopy(p)
    q["modules"][i]["comment"] = f"revision {rng.randrange(1000)}"
    return gen.render_module(q["modules"][i])


def longer(rng, text):
    """Much longer or shorter text: offsets of the old version mean nothing."""
    pad = "  Pad-%d ::= ENUMERATED {\n    pad-a-%d,\n    pad-b-%d\n  }\n\n"
    n = rng.randrange(1, 120)
    b = rng.randrange(1000, 9000)
    s = "".join(pad % (b + k, b + k, b + k) for k in range(n))
    return text.replace("END\n", s + "END\n")


def gen_case(rng, tier, host):
    p, o = lib.pick_run(rng)
    n = len(p["modules"])
    files = rng.sample(range(n), min(n, rng.choice([1, 1, 2])))
    vers = {}
    total = 1
    for i in files:
        k = 2 if total > 1 or rng.random() < 0.8 else 3
        vs = [gen.render_module(p["modules"][i])]
        while len(vs) < k:
            x = rng.random()
            if x < 0.6:
                vs.append(edit_file(rng, p, i))
            elif x < 0.85:
                vs.append(longer(rng, vs[0]))
            else:
                vs.append(broken(rng, vs[0]))
        vers[str(i)] = vs
        total *= len(vs)
    pr, _ = lib.baseline(host, p, o)
    ops = pr.ops
    trials = []
    for _ in range(5):
        ch = []
        for i in files:
            name = p["modules"][i]["file"]
            own = [k for k, x in enumerate(ops) if x[1].endswith("/" + name) or x[1] == name]
            ks = []
            for _v in range(1, len(vers[str(i)])):
                x = rng.random()
                if x < 0.6 and own:
                    ks.append(rng.choice(own) + rng.choice([0, 0, 1]))
                else:
                    ks.append(rng.randrange(len(ops)))
            for v, k in enumerate(sorted(ks), 1):
                ch.append([k, i, v])
        fs = []
        if rng.random() < 0.5:
            # short reads: the text arrives in many pieces, replacements fall in between
            fs.append({"t": "rule", "ops": ["read"], "path": ".asn", "skip": 0, "count": rng.choice([3, 8, 20]), "v": SHORT,
                       "frac": rng.choice([0.02, 0.1, 0.4])})
        if rng.random() < 0.1:
            fs.append({"t": "rule", "ops": ["openr", "read"], "path": ".asn", "skip": rng.randrange(6), "count": 1, "v": FAIL,
                       "a": 4})
        trials.append({"changes": sorted(ch), "faults": fs})
    return {"project": p, "opts": o, "vers": vers, "trials": trials}


def sample(case):
    return {"command": case["opts"]["cmd"], "files": {case["project"]["modules"][int(i)]["file"]: len(v) for i, v in case["vers"].items()},
            "changes": [t["changes"] for t in case["trials"][:3]]}


def shrink(case):
    yield from lib.shrink_trials(case)
    if len(case["trials"]) == 1:
        t = case["trials"][0]
        if t["faults"]:
            yield with_(case, trials=[with_(t, faults=t["faults"][:-1])])
        for sub in lib.shrink_list(t["changes"]):
            yield with_(case, trials=[with_(t, changes=sub)])


def outcome(host, pr):
    return (pr.ended, pr.code(), lib.files_of(host.tree("work/out")), pr.out(), pr.err())


def run_case(host, case, stats):
    p, o, vers = case["project"], case["opts"], case["vers"]
    idx = sorted(vers, key=int)
    combos = {}
    argv = gen.argv(p, o, "out")
    for c in itertools.product(*[range(len(vers[i])) for i in idx]):
        host.fresh()
        lib.put_project(host, p)
        for i, v in zip(idx, c):
            host.put("work/" + p["modules"][int(i)]["file"], vers[i][v])
        combos[c] = outcome(host, host.run(argv))
    first = combos[tuple(0 for _ in idx)]
    if first[0] != "exit" or first[1] != 0:
        raise lib.Discard("baseline rejected")
    differ = len({repr(x) for x in combos.values()}) > 1
    for n, t in enumerate(case["trials"]):
        host.fresh()
        lib.put_project(host, p)
        todo = [list(c) for c in t["changes"]]
        inside = [0]

        def before(pr, k, op, path):
            while todo and todo[0][0] <= k:
                _, i, v = todo.pop(0)
                host.put("work/" + p["modules"][i]["file"], vers[str(i)][v])
                host.log.append(("user", "replace", p["modules"][i]["file"], v))
                host.note_fault("input-replaced")
                inside[0] += 1

        host.before_op = before
        pr = host.run(argv, faults=t["faults"])
        host.before_op = None
        got = outcome(host, pr)
        stats.evaluations += 1
        if inside[0] and differ:
            stats.sig(gen.render(p), sorted(vers.items()), t["changes"])
        stats.probe("accepted" if got[1] == 0 else "rejected")
        hit = [c for c, x in combos.items() if x == got]
        if hit and hit[0] != tuple(0 for _ in idx):
            stats.probe("run saw a newer version")
        if not hit:
            what = f"{o['cmd']}, replacements {t['changes']} of {[p['modules'][int(i)]['file'] for i in idx]}: "
            near = [c for c, x in combos.items() if (x[1] == 0) == (got[1] == 0)]
            if not near:
                raise Violation("outcome-of-no-version", what + f"status {got[1]} ({got[0]}), no combination of versions gives that; "
                                + got[4][-200:].decode(errors="replace"), n)
            raise Violation("mixture-of-versions", what + f"status {got[1]}: " + lib.describe(got[2], combos[near[0]][2]) + " "
                            + got[4][-200:].decode(errors="replace"), n)
