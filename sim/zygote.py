"""Fork server: imports the libraries the tool uses and compiles the tool's
modules from /repo once, then forks one child per simulated invocation.  The
child executes main.py as __main__, which imports (executes) the tool's modules
afresh, and leaves through the normal end of the interpreter (so buffered data,
exit status and traceback printing are those of a real run)."""
import ctypes
import gc
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import random
import resource
import signal
import socket
import sys
import time

CTL = int(sys.argv[1])
REPO = sys.argv[2]
CONF = json.loads(sys.argv[3])

_shim = ctypes.CDLL(None)
_shim.sim_activate.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int, ctypes.c_int]
_shim.sim_virtual.argtypes = [ctypes.c_uint64, ctypes.c_int64]
_shim.sim_pace.argtypes = [ctypes.c_int64]
_shim.sim_mark.argtypes = [ctypes.c_char_p, ctypes.c_long]
_shim.sim_mark.restype = ctypes.c_long

_main = os.path.join(REPO, "asn1_parser", "main.py")
sys.path[0] = os.path.join(REPO, "asn1_parser")
_shim.sim_virtual(CONF["seed"], CONF["t0"])
random.seed(CONF["seed"])


def _scout():
    """Runs the imports of main.py in a child and reports what they loaded:
    (outside modules in order, modules of the tool, error)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        err = None
        try:
            with open(_main, "rb") as f:
                code = compile(f.read(), _main, "exec")
            exec(code, {"__name__": "zygote_preload", "__file__": _main, "__builtins__": __builtins__})
        except BaseException as e:  # a tree that cannot be imported: report, the children will fail the same way
            err = repr(e)
        ext, own = [], []
        base = os.path.realpath(REPO) + os.sep
        for n, m in list(sys.modules.items()):
            spec = getattr(m, "__spec__", None)
            o = getattr(spec, "origin", None)
            if o and os.path.realpath(o).startswith(base) and o.endswith(".py"):
                own.append([n, o, spec.submodule_search_locations is not None])
            else:
                ext.append(n)
        with os.fdopen(w, "w") as f:
            json.dump([ext, own, err], f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        res = f.read()
    os.waitpid(pid, 0)
    return json.loads(res) if res else [[], [], "scout died"]


class _Loader(importlib.machinery.SourceFileLoader):
    """Executes the module; only its compilation is done beforehand."""

    def __init__(self, name, path, code):
        super().__init__(name, path)
        self._compiled = code

    def get_code(self, fullname):
        return self._compiled


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.known = {}

    def find_spec(self, name, path=None, target=None):
        k = self.known.get(name)
        if not k:
            return None
        origin, package, code = k
        return importlib.util.spec_from_file_location(
            name, origin, loader=_Loader(name, origin, code),
            submodule_search_locations=[os.path.dirname(origin)] if package else None)


def _preload():
    ext, own, err = _scout()
    for n in ext:
        if n not in sys.modules and not n.startswith("zygote"):
            try:
                importlib.import_module(n)
            except BaseException:
                pass
    finder = _Finder()
    for n, o, package in own:
        try:
            with open(o, "rb") as f:
                finder.known[n] = (o, package, compile(f.read(), o, "exec"))
        except BaseException:
            pass
    sys.meta_path.insert(0, finder)
    try:
        with open(_main, "rb") as f:
            code = compile(f.read(), _main, "exec")
    except BaseException as e:
        code = compile(f"raise {type(e).__name__}({str(e)!r})", _main, "exec")
        err = err or repr(e)
    return code, err


_code, _err = _preload()
_ctl = socket.socket(fileno=CTL)
_ctl.send(json.dumps({"ready": True, "err": _err}).encode())

gc.collect()
gc.freeze()
_JUNK = []


class _Slot:
    __slots__ = ("a", "b")


class _Obj:
    pass


def _perturb(seed):
    """Seeded disturbance of the heap layout, so that objects of the run get
    other addresses (and orders that follow addresses change)."""
    r = random.Random(seed)
    for _ in range(r.randrange(50, 400)):
        k = r.randrange(6)
        if k == 0:
            _JUNK.append(_Obj())
        elif k == 1:
            _JUNK.append([None] * r.randrange(1, 30))
        elif k == 2:
            _JUNK.append({i: i for i in range(r.randrange(1, 12))})
        elif k == 3:
            o = _Obj()
            o.x = r.random()
            _JUNK.append(o)
        elif k == 4:
            _JUNK.append(_Slot())
        else:
            _JUNK.append(bytearray(r.randrange(1, 400)))
    # holes
    for i in range(len(_JUNK) - 1, -1, -1):
        if r.random() < 0.4:
            del _JUNK[i]


def _count_steps(budget):
    mon = sys.monitoring
    E = mon.events
    mon.use_tool_id(4, "sim")
    n = 0

    def tick(*_):
        nonlocal n
        n += 1
        if n > budget:
            mon.set_events(4, 0)
            _shim.sim_mark(b"budget", n)
            os._exit(97)

    for ev in (E.PY_START, E.JUMP, E.BRANCH):
        mon.register_callback(4, ev, tick)
    mon.set_events(4, E.PY_START | E.JUMP | E.BRANCH)
    import atexit

    def done():
        mon.set_events(4, 0)
        _shim.sim_mark(b"steps", n)

    atexit.register(done)


def _serve():
    while True:
        data, fds, _, _ = socket.recv_fds(_ctl, 1 << 20, 4)
        if not data:
            os._exit(0)
        req = json.loads(data)
        if req["cmd"] == "wait":
            _, st = os.waitpid(req["pid"], 0)
            _ctl.send(json.dumps({"status": st}).encode())
            continue
        if req["cmd"] == "kill":
            try:
                os.kill(req["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
            _ctl.send(b"{}")
            continue
        pid = os.fork()
        if pid:
            for fd in fds:
                os.close(fd)
            _ctl.send(json.dumps({"pid": pid}).encode())
            continue
        _ctl.close()
        return req, fds


class _Spy(os._Environ):
    """Reports which variables are looked up."""

    def _seen(self, key):
        if isinstance(key, str) and key not in _seen_keys:
            _seen_keys.add(key)
            _shim.sim_mark(b"env:" + key.encode("utf-8", "replace"), 0)

    def __getitem__(self, key):
        self._seen(key)
        return super().__getitem__(key)

    def __contains__(self, key):
        self._seen(key)
        return super().__contains__(key)


_seen_keys = set()


def _enter(req, fds):
    sim, out, err = fds
    nul = os.open("/dev/null", os.O_RDONLY)
    os.dup2(nul, 0)
    os.dup2(out, 1)
    os.dup2(err, 2)
    for fd in (nul, out, err):
        os.close(fd)
    os.chdir(req["cwd"])
    for k in list(os.environ):
        if k not in ("LD_PRELOAD", "PATH", "PYTHONHASHSEED"):
            del os.environ[k]
    os.environ.update(req["env"])
    time.tzset()
    resource.setrlimit(resource.RLIMIT_CPU, (req.get("cpu", 60), req.get("cpu", 60) + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    random.seed(req["seed"])
    if req.get("perturb"):
        _perturb(req["perturb"])
    g = req.get("gc")
    if g:
        gc.set_threshold(*g)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    _shim.sim_activate(sim, req["root"].encode(), req["seed"], req["t0"], req["pid"], req.get("std", 0))
    _shim.sim_pace(req.get("pace", 0))
    if req.get("spy"):
        os.environ.__class__ = _Spy
    if req.get("steps"):
        _count_steps(req["steps"])


def _early(runs):
    """All invocations but the last one of a process that hosts several."""
    for argv in runs:
        sys.argv = [_main] + argv
        code = 0
        try:
            exec(_code, {"__name__": "__main__", "__file__": _main, "__builtins__": __builtins__})
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:
            code = 1
            sys.stderr.write(f"{type(e).__name__}: {e}\n")
            e.__traceback__ = None
            del e
        sys.stdout.flush()
        _shim.sim_mark(b"end", code)


_req, _fds = _serve()
_enter(_req, _fds)
_early(_req["runs"][:-1])
sys.argv = [_main] + _req["runs"][-1]
__file__ = _main
del _JUNK[:0]
exec(_code, {"__name__": "__main__", "__file__": _main, "__builtins__": __builtins__})
