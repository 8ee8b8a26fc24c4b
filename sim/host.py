"""One simulated machine: a scratch root directory, the zygotes, and the
scheduler that decides every verdict on every announced system call."""
import errno
import hashlib
import json
import os
import select
import shutil
import signal
import socket
import stat as statmod
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("APG_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUILD = os.path.join(VERIF, "build")

PROCEED, FAIL, SHORT, DIE_BEFORE, DIE_AFTER, DIE_PARTIAL, SIGINT, FAIL_AFTER, SIGNAL = range(9)
VNAME = {0: "proceed", 1: "fail", 2: "short", 3: "kill-before", 4: "kill-after", 5: "kill-partial-write",
         6: "sigint", 7: "fail-after", 8: "signal"}
MUTATING = {"openw", "write", "mkdir", "rename", "unlink", "rmdir", "truncate", "ftruncate", "link", "symlink",
            "mknod", "chmod", "chown", "utime"}
T0 = 1_600_000_000_000_000_000


class SimError(Exception):
    """The harness itself is broken (never a verdict on the tool)."""


def shim_path():
    src = open(os.path.join(HERE, "shim.c"), "rb").read()
    h = hashlib.sha256(src).hexdigest()[:16]
    so = os.path.join(BUILD, f"shim-{h}.so")
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=".so")
        os.close(fd)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-Wno-nonnull-compare", "-fno-delete-null-pointer-checks",
                        "-w", "-o", tmp, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
        os.chmod(tmp, 0o755)
        os.rename(tmp, so)
    return so


def base_env():
    return {"PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONWARNINGS": "ignore", "LANG": "C.UTF-8"}


class Zygote:
    def __init__(self, hashseed, seed=1, t0=T0):
        self.hashseed = hashseed
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        env = base_env()
        env["PYTHONHASHSEED"] = str(hashseed)
        if hashseed >= 100:
            # an interpreter that runs without assertions
            env["PYTHONOPTIMIZE"] = "1"
        env["LD_PRELOAD"] = shim_path()
        os.set_inheritable(b.fileno(), True)
        self.proc = subprocess.Popen(
            [PY, "-B", "-W", "ignore", os.path.join(HERE, "zygote.py"), str(b.fileno()), REPO,
             json.dumps({"seed": seed, "t0": t0})],
            env=env, cwd="/", close_fds=True, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL)
        b.close()
        self.ctl = a
        a.settimeout(120)
        r = json.loads(a.recv(1 << 20))
        if not r.get("ready"):
            raise SimError("zygote did not start")
        self.import_error = r.get("err")

    def call(self, req, fds=()):
        socket.send_fds(self.ctl, [json.dumps(req).encode()], list(fds))
        return json.loads(self.ctl.recv(1 << 20))

    def close(self):
        try:
            self.ctl.close()
            self.proc.wait(timeout=10)
        except Exception:
            self.proc.kill()
            self.proc.wait()


class Plan:
    """Explicit faults of one process, addressed by ordinal of the announced
    call ("k") or by rule.  Pure data in, deterministic verdicts out."""

    def __init__(self, faults=()):
        self.faults = [dict(f) for f in faults]
        self.hits = [0] * len(self.faults)
        self.written = 0

    def decide(self, k, op, path, arg):
        for i, f in enumerate(self.faults):
            if f["t"] == "at":
                if f["k"] != k:
                    continue
            elif f["t"] == "rule":
                if op not in f["ops"] or (f.get("path") and f["path"] not in path):
                    continue
                self.hits[i] += 1
                n = self.hits[i]
                if n <= f.get("skip", 0) or (f.get("count", -1) >= 0 and n > f.get("skip", 0) + f["count"]):
                    continue
                self.hits[i] -= 1
            elif f["t"] == "diskfull":
                if op == "write" and not path.startswith("<"):
                    left = f["bytes"] - self.written
                    if left <= 0:
                        self.hits[i] += 1
                        return (FAIL, f["errno"], i)
                    if arg > left:
                        self.hits[i] += 1
                        self.written += left
                        return (SHORT, left, i)
                    self.written += arg
                elif op in ("mkdir",) and self.written >= f["bytes"]:
                    self.hits[i] += 1
                    return (FAIL, f["errno"], i)
                continue
            else:
                raise SimError(f"fault {f}")
            v, a = f["v"], f.get("a", 0)
            if not applicable(v, op):
                continue
            if v in (SHORT, DIE_PARTIAL):
                a = max(1 if v == SHORT else 0, min(int(arg * f["frac"]), arg))
            self.hits[i] += 1
            return (v, a, i)
        return (PROCEED, 0, -1)


def applicable(v, op):
    if op in ("mark",):
        return False
    if v in (SHORT,):
        return op in ("read", "write")
    if v == DIE_PARTIAL:
        return op == "write"
    if op == "sleep":
        return v in (DIE_BEFORE, DIE_AFTER)
    return True


class Proc:
    def __init__(self, host, name, zyg, sock, pid, outp, errp, plan):
        self.host, self.name, self.zyg, self.sock, self.pid = host, name, zyg, sock, pid
        self.outp, self.errp, self.plan = outp, errp, plan
        self.k = 0
        self.pending = None
        self.status = None
        self.ended = None       # None | "exit" | "hang" | "runaway"
        self.ops = []           # (op, path, path2, arg, verdict, a)
        self.escapes = []
        self.marks = []
        self.fired = []
        self.mutated = []       # paths changed, in order (relative to root)
        self.steps = None
        self.nmut = 0

    def fetch(self):
        """Block until the process announces a call or ends."""
        while self.pending is None and self.ended is None:
            try:
                m = self.sock.recv(1 << 16)
            except socket.timeout:
                self.kill("hang")
                return
            except ConnectionResetError:
                m = b""
            if not m:
                self.finish("exit")
                return
            f = m.decode("utf-8", "surrogateescape").split("\t")
            if f[0].startswith("!"):
                self.escapes.append((f[0][1:], f[1]))
                self.host.log.append((self.name, "ESCAPE", f[0][1:], f[1]))
                continue
            self.pending = (f[0], f[1], f[2], int(f[3]))

    def finish(self, how):
        self.status = self.zyg.call({"cmd": "wait", "pid": self.pid})["status"]
        self.ended = how
        if how == "exit" and os.WIFSIGNALED(self.status) and os.WTERMSIG(self.status) == signal.SIGXCPU:
            self.ended = "hang"
        self.sock.close()
        self.host.log.append((self.name, "END", self.ended, self.code()))

    def kill(self, how):
        self.zyg.call({"cmd": "kill", "pid": self.pid})
        self.finish(how)

    def code(self):
        if self.status is None:
            return None
        if os.WIFEXITED(self.status):
            return os.WEXITSTATUS(self.status)
        return -os.WTERMSIG(self.status)

    def grant(self):
        """Answer the pending call."""
        op, path, path2, arg = self.pending
        self.pending = None
        h = self.host
        h.now += h.op_ns
        if op == "mark":
            if path == "steps":
                self.steps = arg
            elif path == "budget":
                self.steps = arg
                self.marks.append(("budget", arg))
            else:
                self.marks.append((path, arg))
            v, a, fi = PROCEED, 0, -1
            if h.on_mark:
                h.on_mark(self, path, arg)
        else:
            if h.before_op:
                h.before_op(self, self.k, op, path)
            v, a, fi = self.plan.decide(self.k, op, path, arg)
            if op == "sleep":
                h.now += max(0, arg) * 1_000_000
            self.ops.append((op, path, path2, arg, v, a))
            self.k += 1
            if fi >= 0:
                self.fired.append((fi, op, v, a))
                h.count_fault(op, v, a)
            if op in MUTATING and not path.startswith("<"):
                self.nmut += 1
                if v not in (FAIL, DIE_BEFORE, SIGINT):
                    self.mutated.append((op, path, path2))
        h.log.append((self.name, op, path, path2, arg, v, a))
        h.stats["ops"] += 1
        if self.k > h.max_ops:
            self.kill("runaway")
            return
        try:
            self.sock.send(f"{v} {a} 0 {h.now}".encode())
        except (BrokenPipeError, ConnectionResetError):
            pass

    def out(self):
        return open(self.outp, "rb").read()

    def err(self):
        return open(self.errp, "rb").read()


class Host:
    """Owns a scratch directory; everything the tool touches lies below it."""

    def __init__(self, base, tag="h"):
        self.base = base
        self.tag = tag
        self.zygotes = {}
        self.stats = {"ops": 0, "procs": 0, "sim_ns": 0}
        self.faults = {}
        self.max_ops = 4000
        self.op_ns = 1_000_000
        self.on_mark = None
        self.before_op = None
        self.n = 0
        self.root = None
        self.log = []
        self.now = T0
        self.cpu = 60
        self.hist = hashlib.sha256()
        self.schedules = set()      # distinct event logs

    # ------------------------------------------------------------- zygotes
    def zygote(self, hashseed=0):
        z = self.zygotes.get(hashseed)
        if z is None:
            z = self.zygotes[hashseed] = Zygote(hashseed, seed=1000 + hashseed, t0=T0 + hashseed * 86_400_000_000_000)
        return z

    def close(self):
        for z in self.zygotes.values():
            z.close()
        self.zygotes = {}
        if self.root:
            shutil.rmtree(self.root, ignore_errors=True)

    def count_fault(self, op, v, a):
        name = VNAME[v]
        if v in (FAIL, FAIL_AFTER):
            name += ":" + errno.errorcode.get(a, str(a))
        key = f"{name}@{op}"
        self.faults[key] = self.faults.get(key, 0) + 1

    def note_fault(self, key, n=1):
        self.faults[key] = self.faults.get(key, 0) + n

    # ---------------------------------------------------------------- case
    def fresh(self, name="root"):
        """New empty machine; the previous one is removed."""
        if self.root:
            self.close_log()
            shutil.rmtree(self.root, ignore_errors=True)
        self.top = os.path.join(self.base, self.tag)
        self.root = os.path.join(self.top, name)
        self.aux = os.path.join(self.base, self.tag + ".aux")
        shutil.rmtree(self.top, ignore_errors=True)
        shutil.rmtree(self.aux, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(self.aux)
        for d in ("tmp", "home", "work"):
            os.mkdir(os.path.join(self.root, d))
        self.now = T0
        self.log = []
        self.n = 0
        self.on_mark = None
        self.before_op = None
        return self.root

    def begin_case(self):
        """Start of a case: the event log of everything until end_case."""
        self.log = []
        self.hist = hashlib.sha256()
        self.now = T0

    def close_log(self):
        if self.log:
            self.stats["sim_ns"] += max(0, self.now - T0)
            d = self.digest()
            self.hist.update(d.encode())
            self.schedules.add(int(d[:16], 16))
            self.log = []

    def end_case(self):
        self.close_log()
        return self.hist.hexdigest()

    def p(self, rel):
        return os.path.join(self.root, rel)

    def put(self, rel, data, mtime=None):
        """Atomic replacement of a file by a user of the machine."""
        if isinstance(data, str):
            data = data.encode(errors="surrogateescape")
        path = self.p(rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = os.path.join(self.aux, "put.tmp")
        with open(tmp, "wb") as f:
            f.write(data)
        t = self.now if mtime is None else mtime
        os.utime(tmp, ns=(t, t))
        os.rename(tmp, path)

    def get(self, rel):
        try:
            with open(self.p(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None

    def tree(self, rel="."):
        """{path: content} of everything below rel; directories map to None."""
        res = {}
        top = self.p(rel)
        if not os.path.isdir(top):
            return res
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for x in dirs:
                q = os.path.join(d, x)
                r = os.path.relpath(q, top)
                res[r] = ("link", os.readlink(q)) if os.path.islink(q) else None
            for x in files:
                q = os.path.join(d, x)
                r = os.path.relpath(q, top)
                if os.path.islink(q):
                    res[r] = ("link", os.readlink(q))
                elif statmod.S_ISREG(os.lstat(q).st_mode):
                    with open(q, "rb") as f:
                        res[r] = f.read()
                else:
                    res[r] = ("special",)
        return res

    # ----------------------------------------------------------- processes
    def spawn(self, runs, cwd="work", faults=(), hashseed=0, env=None, seed=7, perturb=0, gc=None, std=0, steps=0,
              pid=4242, name=None, spy=False, pace=0):
        """runs: list of argv lists (one process, several invocations)."""
        zyg = self.zygote(hashseed)
        i = self.n
        self.n += 1
        name = name or f"p{i}"
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        a.settimeout(240 if steps else 75)
        outp, errp = os.path.join(self.aux, f"out{i}"), os.path.join(self.aux, f"err{i}")
        of = os.open(outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        ef = os.open(errp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        e = {"TMPDIR": self.p("tmp"), "HOME": self.p("home"), "LANG": "C.UTF-8"}
        e.update(env or {})
        r = zyg.call({"cmd": "spawn", "cwd": self.p(cwd), "env": e, "root": self.root, "seed": seed, "t0": self.now,
                      "pid": pid, "std": std, "runs": runs, "perturb": perturb, "gc": gc, "steps": steps, "spy": spy,
                      "cpu": self.cpu, "pace": pace}, [b.fileno(), of, ef])
        b.close()
        os.close(of)
        os.close(ef)
        pr = Proc(self, name, zyg, a, r["pid"], outp, errp, Plan(faults))
        self.stats["procs"] += 1
        self.log.append((name, "SPAWN", json.dumps(runs), cwd))
        return pr

    def run(self, argv, **kw):
        """One process on its own, from start to end."""
        runs = argv if argv and isinstance(argv[0], list) else [argv]
        pr = self.spawn(runs, **kw)
        while True:
            pr.fetch()
            if pr.ended:
                return pr
            pr.grant()

    def run_many(self, procs, choose):
        """Interleave: choose(list of live procs) -> index, at every call."""
        for q in procs:
            q.fetch()
        while True:
            live = [q for q in procs if q.ended is None]
            if not live:
                return
            q = live[choose(live) % len(live)]
            q.grant()
            q.fetch()

    # ------------------------------------------------------------ durability
    def power_loss(self, proc, choices, durable):
        """Only durable state survives: what proc wrote without fsync may be
        lost in part.  choices: list of {"path","mode","frac"}; durable is the
        tree before the run."""
        synced = {p for (op, p, _, _, v, _) in proc.ops if op == "fsync" and v == PROCEED}
        touched = []
        for op, p, q in proc.mutated:
            t = q if op == "rename" else p
            if op in ("openw", "write", "rename", "ftruncate") and t not in touched:
                touched.append(t)
        done = 0
        for i, c in enumerate(choices):
            if not touched:
                break
            t = touched[c["i"] % len(touched)]
            if t in synced or not os.path.isfile(self.p(t)):
                continue
            data = self.get(t) or b""
            m = c["mode"]
            n = int(len(data) * c["frac"])
            if m == "lost":
                os.unlink(self.p(t))
            elif m == "old":
                old = durable.get(t)
                if isinstance(old, bytes):
                    self.put(t, old)
                else:
                    os.unlink(self.p(t))
            elif m == "empty":
                self.put(t, b"")
            elif m == "prefix":
                self.put(t, data[:n])
            elif m == "zeros":
                self.put(t, data[:n] + b"\0" * (len(data) - n))
            elif m == "garbage":
                self.put(t, data[:n] + bytes((17 * j + 3) % 256 for j in range(len(data) - n)))
            elif m == "grown":
                self.put(t, data + b"\0" * 512)
            done += 1
            self.note_fault("power-loss:" + m)
            self.log.append(("host", "power-loss", t, m, n))
        return done

    def digest(self):
        h = hashlib.sha256()
        root = self.root.encode()
        for e in self.log:
            h.update(repr(e).encode("utf-8", "surrogateescape").replace(root, b"<ROOT>"))
        return h.hexdigest()
