"""Driver:  check.py run <property>      seeded search (VERIF_SEED, VERIF_TIER)
            check.py replay <file>       one recorded case, exactly
            check.py determinism <property> [n]   event logs of n seeds, one line each

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the harness itself failed (never a verdict)."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import lib  # noqa: E402
from sim.host import Host, SimError, shim_path  # noqa: E402

PROPS = ["C%02d" % i for i in range(1, 15)]
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def case_rng(seed, pid, i):
    return random.Random(int(hashlib.sha256(f"{seed}/{pid}/{i}".encode()).hexdigest(), 16))


def scratch_base():
    d = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="apgsim-", dir=d)


def evaluate(mod, host, case, stats):
    """-> (violation or None, digest).  Discard counts as no violation."""
    host.begin_case()
    v = None
    try:
        mod.run_case(host, case, stats)
    except lib.Discard as d:
        stats.discards[str(d)] = stats.discards.get(str(d), 0) + 1
    except lib.Violation as x:
        v = x
    return v, host.end_case()


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                res.append(line[len(f"known: property={pid} "):])
    return res


# ------------------------------------------------------------------------ worker

def worker(pid, seed, tier, base, w, counter, stop_at, limit, deadline, out):
    signal_safe()
    mod = load(pid)
    stats = lib.Stats()
    host = Host(base, f"w{w}")
    done, errors = 0, []
    samples = []
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= limit or i > stop_at.value or time.monotonic() > deadline:
                break
            for attempt in (0, 1):
                try:
                    case = mod.gen_case(case_rng(seed, pid, i), tier, host)
                    v, _ = evaluate(mod, host, case, stats)
                    break
                except lib.Discard as d:
                    stats.discards[str(d)] = stats.discards.get(str(d), 0) + 1
                    v, case = None, None
                    host.end_case()
                    break
                except Exception:
                    err = traceback.format_exc()
                    try:
                        host.close()
                    except Exception:
                        pass
                    old = host
                    host = Host(base, f"w{w}")
                    for k in ("stats", "faults", "schedules"):
                        setattr(host, k, getattr(old, k))
                    v, case = None, None
                    if attempt:
                        errors.append((i, err))
            done += 1
            if case is not None and len(samples) < 2:
                samples.append((i, mod.sample(case)))
            if v is not None:
                with stop_at.get_lock():
                    if i < stop_at.value:
                        stop_at.value = i
                out.put(("violation", i, v.cls, v.detail, v.trial, case))
                break
    finally:
        try:
            host.close()
        except Exception:
            pass
    out.put(("done", w, done, errors, samples,
             {"evaluations": stats.evaluations, "sigs": stats.sigs, "discards": stats.discards, "probes": stats.probes},
             {"stats": host.stats, "faults": host.faults, "schedules": host.schedules}))


def signal_safe():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


# ------------------------------------------------------------------------ shrink

def minimise(mod, base, case, cls, trial, budget):
    """Greedy: keep every smaller case that fails in the same class."""
    host = Host(base, "min")
    stats = lib.Stats()
    end = time.monotonic() + budget
    tried = kept = 0
    try:
        if trial is not None and len(case.get("trials", ())) > 1:
            c = lib.with_(case, trials=[case["trials"][trial]])
            v, _ = evaluate(mod, host, c, stats)
            if v is not None and v.cls == cls:
                case = c
                kept += 1
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for c in mod.shrink(case):
                if time.monotonic() > end:
                    break
                tried += 1
                try:
                    v, _ = evaluate(mod, host, c, stats)
                except Exception:
                    host.close()
                    host = Host(base, "min")
                    continue
                if v is not None and v.cls == cls:
                    case = c
                    kept += 1
                    progress = True
                    break
        v, digest = evaluate(mod, host, case, stats)
        return case, v, digest, tried, kept
    finally:
        host.close()


# --------------------------------------------------------------------------- run

def run(pid):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = load(pid)
    limit = int(os.environ.get("APG_CASES", mod.CASES[tier]))
    cap = float(os.environ.get("APG_CAP", {"quick": 200, "thorough": 780}[tier]))
    nw = int(os.environ.get("APG_WORKERS", min(8, os.cpu_count() or 1)))
    shim_path()
    base = scratch_base()
    code = 2
    try:
        code = _run(pid, mod, seed, tier, limit, cap, nw, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code


def _run(pid, mod, seed, tier, limit, cap, nw, base, t0):
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0)
    stop_at = ctx.Value("l", 1 << 60)
    out = ctx.Queue()
    deadline = t0 + cap
    procs = [ctx.Process(target=worker, args=(pid, seed, tier, base, w, counter, stop_at, limit, deadline, out))
             for w in range(nw)]
    for p in procs:
        p.start()
    live = nw
    viol, errors, samples = [], [], []
    done = 0
    agg = {"evaluations": 0, "sigs": set(), "discards": {}, "probes": {}, "faults": {}, "schedules": set(),
           "ops": 0, "procs": 0, "sim_ns": 0}

    def add(d, e):
        for k, n in e.items():
            d[k] = d.get(k, 0) + n

    hard = deadline + 300
    while live:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead or time.monotonic() > hard:
                errors.append((-1, f"workers ended abnormally: {[p.exitcode for p in procs]}"))
                break
            continue
        if m[0] == "violation":
            viol.append(m[1:])
        else:
            live -= 1
            _, _, n, errs, smp, st, hs = m
            done += n
            errors += errs
            samples += smp
            agg["evaluations"] += st["evaluations"]
            agg["sigs"] |= st["sigs"]
            add(agg["discards"], st["discards"])
            add(agg["probes"], st["probes"])
            add(agg["faults"], hs["faults"])
            agg["schedules"] |= hs["schedules"]
            for k in ("ops", "procs", "sim_ns"):
                agg[k] += hs["stats"][k]
    for p in procs:
        if p.is_alive() and errors and live:
            p.kill()
        p.join(30)
    search_s = time.monotonic() - t0

    rc = 0
    known = known_findings(pid)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if viol:
        viol.sort(key=lambda x: x[0])
        i, cls, detail, trial, case = viol[0]
        path = None
        try:
            case2, v, digest, tried, kept = minimise(mod, base, case, cls, trial, 45 if tier == "quick" else 180)
            if v is None or v.cls != cls:
                raise SimError("violation did not reproduce after minimisation")
            if any(k in f"{v.cls}: {v.detail}" for k in known):
                viol = []
            else:
                path = write_replay(pid, seed, i, v, case2, digest, tried, kept, mod)
        except Exception:
            # fall back to the case as found
            print(traceback.format_exc(), file=sys.stderr)
            path = write_replay(pid, seed, i, lib.Violation(cls, detail), case, None, 0, 0, mod)
        if viol:
            ok = replay_fresh(path)
            print(f"{pid}: {cls}: {detail}")
            print(f"seed={seed} case={i} minimised replay reproduced={'yes' if ok else 'NO'}")
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
    if rc == 0:
        if errors:
            for i, e in errors[:3]:
                print(f"harness error in case {i}:\n{e}", file=sys.stderr)
        if agg["evaluations"] == 0 or len(errors) > max(3, done // 10) or live:
            print(f"{pid}: harness error: {len(errors)} errors, {agg['evaluations']} evaluations, "
                  f"discards {agg['discards']}", file=sys.stderr)
            rc = 2
    wall = time.monotonic() - t0
    write_evidence(pid, mod, tier, seed, done, limit, agg, samples, wall, search_s, len(viol), len(errors), nw)
    if rc == 0:
        print(f"{pid}: held on {agg['evaluations']} evaluations of {done} seeds "
              f"({agg['procs']} simulated runs, {len(agg['schedules'])} distinct histories, {wall:.1f} s)")
    sys.stdout.flush()
    return rc


def write_replay(pid, seed, i, v, case, digest, tried, kept, mod):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "case_index": i, "violation": v.cls, "detail": v.detail,
                   "event_log_sha256": digest, "minimiser": {"tried": tried, "kept": kept},
                   "summary": mod.sample(case), "case": case}, f, indent=1)
        f.write("\n")
    return path


def replay_fresh(path):
    r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300)
    return r.returncode == 1 and b"NOT IDENTICAL" not in r.stdout


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    mod = load(pid)
    base = scratch_base()
    host = Host(base, "w0")
    try:
        v, digest = evaluate(mod, host, r["case"], lib.Stats())
    finally:
        host.close()
        shutil.rmtree(base, ignore_errors=True)
    if v is None:
        print(f"{pid}: replay does not violate the property on this tree")
        return 0
    print(f"{pid}: {v.cls}: {v.detail}")
    same = v.cls == r["violation"] and digest == r["event_log_sha256"]
    print("event log identical to the recorded one" if same else "event log NOT IDENTICAL to the recorded one")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def determinism(pid, n):
    """Prints one line per seed; two calls (any worker, any hash seed of the
    harness) have to print the same."""
    mod = load(pid)
    base = scratch_base()
    host = Host(base, os.environ.get("APG_TAG", "d"))
    try:
        for i in range(n):
            try:
                host.begin_case()
                case = mod.gen_case(case_rng(int(os.environ.get("VERIF_SEED", "1")), pid, i), "quick", host)
                c = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            except lib.Discard as d:
                print(i, "discard", d)
                continue
            v, digest = evaluate(mod, host, case, lib.Stats())
            print(i, c, digest[:32], v.cls if v else "-")
    finally:
        host.close()
        shutil.rmtree(base, ignore_errors=True)
    return 0


def write_evidence(pid, mod, tier, seed, done, limit, agg, samples, wall, search_s, nviol, nerr, nw):
    samples.sort(key=lambda x: x[0])
    cov = {
        "evaluations": agg["evaluations"],
        "distinct_nontrivial": len(agg["sigs"]),
        "rule": mod.RULE,
        "samples": [s for _, s in samples[:4]],
        "seeds_run": done,
        "seeds_planned": limit,
        "simulated_runs": agg["procs"],
        "runs_per_hour": round(agg["procs"] / max(search_s, 0.001) * 3600),
        "seeds_per_hour": round(done / max(search_s, 0.001) * 3600),
        "simulated_seconds": round(agg["sim_ns"] / 1e9, 1),
        "system_calls_decided": agg["ops"],
        "distinct_histories": len(agg["schedules"]),
        "distinct_histories_measure": "SHA-256 over the complete event log (process, call, path, argument, verdict) of one simulated machine",
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "discarded_cases": agg["discards"],
        "harness_errors": nerr,
        "workers": nw,
        "components_real": mod.REAL,
        "components_stub": mod.STUB,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(d, f"{pid}.json"))


def main():
    a = sys.argv[1:]
    if a[:1] == ["run"] and len(a) == 2 and a[1] in PROPS:
        return run(a[1])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["determinism"] and len(a) >= 2:
        return determinism(a[1], int(a[2]) if len(a) > 2 else 20)
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
