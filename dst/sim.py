"""The simulator: scheduler, clock, fault injection and the seams.

Importing this module installs the seams (monkey patches of os, open, subprocess,
datetime, casadi, cyipopt, ...).  It must be imported BEFORE lumos, because lumos binds
some names at import time.  Every wrapper is a pass-through unless a simulation is
running and the path is inside its scratch directory, so importing it changes nothing
outside a simulation.

A simulated process ("node") is a real thread which is parked, and released one at a
time, at the intercepted operations ("events").  Who runs next, which fault fires at
which event, what the clock says: all of it comes from the plan of the run.
"""
import builtins
import datetime as _dt
import errno
import gc
import hashlib
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import weakref

import numpy as np
import pandas as pd  # noqa: F401  (bind the real datetime before it is replaced)
import pyarrow  # noqa: F401
from pyarrow import parquet as pq

import casadi
import cyipopt

# ---------------------------------------------------------------- real functions
R = {}
for _name in (
    "remove", "unlink", "replace", "rename", "link", "symlink", "mkdir", "rmdir",
    "scandir", "listdir", "open", "getpid", "urandom", "system", "truncate",
):
    R[_name] = getattr(os, _name)
R["fopen"] = builtins.open
R["exists"] = os.path.exists
R["isfile"] = os.path.isfile
R["isdir"] = os.path.isdir
R["lexists"] = os.path.lexists
R["Popen"] = subprocess.Popen
R["write_table"] = pq.write_table
R["CodeGenerator"] = casadi.CodeGenerator
R["external"] = casadi.external
R["Problem"] = cyipopt.Problem
R["time"] = time.time
R["time_ns"] = time.time_ns
R["sleep"] = time.sleep
R["strftime"] = time.strftime
R["localtime"] = time.localtime
R["gmtime"] = time.gmtime
R["datetime"] = _dt.datetime
R["names"] = tempfile._get_candidate_names

SIM = None  # the running simulation


class SimCrash(BaseException):
    """The simulated process dies here: nothing it does afterwards has any effect."""


class SimStuck(BaseException):
    """The step budget is used up."""


class InjectedError(Exception):
    """An error raised by the simulator inside user code (model, callbacks)."""


class InjectedInterrupt(KeyboardInterrupt):
    """Ctrl-C delivered by the simulator."""


ERRNO = {"ENOENT": errno.ENOENT, "ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EMFILE": errno.EMFILE,
         "EACCES": errno.EACCES, "EROFS": errno.EROFS, "EAGAIN": errno.EAGAIN,
         "ENOMEM": errno.ENOMEM}


def os_error(kind, path=None):
    code = ERRNO[kind]
    return OSError(code, os.strerror(code), path)


class Node:
    def __init__(self, sim, nid, name, fn, after=(), pid=None):
        self.sim, self.id, self.name, self.fn = sim, nid, name, fn
        self.after = tuple(after)
        self.pid = pid if pid is not None else 1000 + nid
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.started = False
        self.done = False
        self.dead = False  # crashed
        self.interrupt = False  # pending interrupt
        self.blocked = None  # node waited for
        self.n = 0
        self.labels = {}
        self.result = None
        self.error = None
        self.loaded = []  # dlopened libraries: (abspath, inode, content, weakref list)
        self.rng = random.Random("%s/%s" % (sim.seed, sim.name_stream(nid)))
        self.np_state = None
        self.backend = "numpy"

    def names(self):
        chars = "abcdefghijklmnopqrstuvwxyz0123456789_"
        while True:
            yield "".join(self.rng.choices(chars, k=8))


class Sim:
    """One simulated execution.

    plan keys used here: seed, schedule (list of ints), switch_p (probability of a
    preemption once the explicit schedule is exhausted), faults (list of dicts), clock
    (dict start/step/jumps), real_cc, tmp_collide, shuffle.
    """

    def __init__(self, plan, root, max_steps=4000):
        self.plan = plan
        self.seed = plan.get("seed", 0)
        self.root = os.path.realpath(root)
        self.log = []
        self.fault_counts = {}
        self.probes = {}
        self.nodes = []
        self.current = None
        self.inline = False
        self.real_codegen = False  # code generation and its file by casadi itself
        self.steps = 0
        self.max_steps = max_steps
        self.sched = list(plan.get("schedule", []))
        self.sched_pos = 0
        self.sched_rng = random.Random("sched/%s" % self.seed)
        self.switch_p = plan.get("switch_p", 0.3)
        self.choices = []  # schedule actually taken, for replay and minimisation
        self.faults = [dict(f) for f in plan.get("faults", [])]
        clock = plan.get("clock", {})
        self.now_us = clock.get("start", 1_700_000_000_000_000)
        self.clock_step = clock.get("step", 0)
        self.clock_jumps = {int(k): v for k, v in clock.get("jumps", {}).items()}
        self.elapsed_us = 0
        self.control = threading.Semaphore(0)
        self.stuck = False
        self.shuffle_rng = random.Random("ls/%s" % self.seed)
        self.sources = {}

    def name_stream(self, nid):
        return 0 if self.plan.get("tmp_collide") else nid

    # ------------------------------------------------------------- bookkeeping
    def rel(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return repr(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith(self.root):
            return p[len(self.root) + 1:]
        return p

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def advance(self, us):
        self.now_us += us
        if us > 0:
            self.elapsed_us += us

    # ------------------------------------------------------------------ events
    def event(self, label, path=None):
        """An intercepted operation of the current node. Returns the fault to apply."""
        node = self.current
        if node.dead:
            raise SimCrash()
        self.steps += 1
        if self.steps > self.max_steps:
            self.stuck = True
            raise SimStuck("no end after %d steps" % self.max_steps)
        self.advance(self.clock_step)
        if self.steps in self.clock_jumps:
            self.advance(self.clock_jumps[self.steps])
            self.count_fault("clock_jump")
        self._switch_point(node)
        if node.dead:
            raise SimCrash()
        if node.interrupt:
            node.interrupt = False
            raise InjectedInterrupt("interrupt")
        node.n += 1
        node.labels[label] = node.labels.get(label, 0) + 1
        self.log.append((node.id, label, self.rel(path) if path is not None else ""))
        for f in self.faults:
            if f.get("_fired") or f.get("node", node.id) != node.id:
                continue
            if "on" in f:
                if f["on"] != label:
                    continue
                if "path" in f and f["path"] not in self.rel(path if path is not None else ""):
                    continue
                f["_seen"] = f.get("_seen", 0) + 1
                hit = f["_seen"] == f.get("nth", 1)
            else:
                hit = f["at"] == node.n
            if hit:
                f["_fired"] = True
                return self._fire(node, f, label, path)
        return None

    def _fire(self, node, f, label, path):
        kind = f["kind"]
        self.count_fault(kind + "@" + label)
        self.log.append((node.id, "FAULT", kind))
        if kind == "crash":
            self.kill(node)
            raise SimCrash()
        if kind == "interrupt":
            raise InjectedInterrupt("interrupt")
        return f

    def kill(self, node):
        node.dead = True

    def crash_now(self):
        self.kill(self.current)
        raise SimCrash()

    def apply(self, fault, path, op):
        """Run the operation op() under the fault, for all-or-nothing operations."""
        if fault is None:
            return op()
        kind = fault["kind"]
        if kind == "crash_after":
            op()
            self.crash_now()
        if kind in ERRNO:
            raise os_error(kind, str(path))
        if kind == "interrupt_after":
            op()
            raise InjectedInterrupt("interrupt")
        # a kind that does not apply to this operation (eg: torn): treat as a crash
        if kind == "torn":
            self.crash_now()
        return op()

    # --------------------------------------------------------------- scheduling
    def runnable(self):
        out = []
        for nd in self.nodes:
            if nd.done:
                continue
            if nd.dead and not nd.started:
                continue
            if nd.blocked is not None and not nd.blocked.done:
                continue
            if not nd.started and any(not self.nodes[a].done for a in nd.after):
                continue
            out.append(nd)
        return out

    def _pick(self, me=None):
        cand = self.runnable()
        if not cand:
            return None
        if len(cand) == 1:
            return cand[0]
        if self.sched_pos < len(self.sched):
            c = self.sched[self.sched_pos]
            self.sched_pos += 1
            # c is an offset: 0 = stay with (or the next after) the current node
            base = cand.index(me) if me in cand else 0
            pick = cand[(base + c) % len(cand)]
        elif self.plan.get("sched_default") == "stay":
            pick = me if me in cand else cand[0]
            c = 0
        else:
            base = cand.index(me) if me in cand else 0
            if me in cand and self.sched_rng.random() > self.switch_p:
                c = 0
            else:
                c = self.sched_rng.randrange(len(cand))
            pick = cand[(base + c) % len(cand)]
        self.choices.append(c)
        return pick

    def _save(self, node):
        import lumos.numpy as lnp
        node.backend = lnp.get_backend()
        node.np_state = np.random.get_state()

    def _load(self, node):
        import lumos.numpy as lnp
        lnp.set_backend(node.backend)
        if node.np_state is None:
            np.random.seed(abs(hash_int("%s/np/%s" % (self.seed, node.id))) % (2 ** 32))
        else:
            np.random.set_state(node.np_state)

    def _transfer(self, target):
        self.current = target
        if not target.started:
            target.started = True
            target.thread = threading.Thread(target=self._body, args=(target,), daemon=True)
            target.thread.start()
        target.sem.release()

    def _switch_point(self, node):
        if self.inline:
            return
        target = self._pick(node)
        if target is None or target is node:
            return
        self.log.append((node.id, "->", target.name))
        self._save(node)
        self._transfer(target)
        node.sem.acquire()
        self.current = node
        self._load(node)

    def wait_for(self, node, other):
        """Block node until other is done."""
        if self.inline:
            return
        while not other.done:
            node.blocked = other
            target = self._pick(node)
            if target is None:
                raise SimStuck("deadlock")
            self._save(node)
            self._transfer(target)
            node.sem.acquire()
            self.current = node
            self._load(node)
        node.blocked = None

    def _body(self, node):
        node.sem.acquire()
        self.current = node
        self._load(node)
        try:
            node.result = node.fn()
        except SimCrash:
            node.dead = True
            node.error = "crash"
        except BaseException as e:  # noqa
            node.error = e
        node.done = True
        self.log.append((node.id, "END", "crash" if node.dead else (
            type(node.error).__name__ if node.error is not None else "ok")))
        target = self._pick(None)
        if target is None:
            self.current = None
            self.control.release()
        else:
            self._transfer(target)

    def add_node(self, name, fn, after=(), pid=None):
        node = Node(self, len(self.nodes), name, fn, after, pid)
        self.nodes.append(node)
        return node

    def run(self):
        """Run all nodes to the end (called by the controller thread)."""
        import lumos.numpy as lnp
        first = self._pick(None)
        if first is None:
            return
        saved = lnp.get_backend()
        self._transfer(first)
        self.control.acquire()
        for nd in self.nodes:
            if nd.thread is not None:
                nd.thread.join()
        lnp.set_backend(saved)
        if any(not nd.done for nd in self.nodes):
            raise RuntimeError("simulator: nodes left over")


class Inline:
    """A simulation with a single node running in the calling thread."""

    def __init__(self, plan, root, max_steps=100000):
        self.sim = Sim(plan, root, max_steps)
        self.sim.inline = True

    def __enter__(self):
        global SIM
        node = self.sim.add_node("main", None)
        node.started = True
        self.sim.current = node
        self.prev = SIM
        SIM = self.sim
        return self.sim

    def __exit__(self, *exc):
        global SIM
        SIM = self.prev


def hash_int(s):
    return int.from_bytes(hashlib.sha256(str(s).encode()).digest()[:8], "little")


def start(sim):
    global SIM
    SIM = sim


def stop():
    global SIM
    SIM = None


def _on(path=None):
    """The running simulation if the current operation belongs to it."""
    sim = SIM
    if sim is None or sim.current is None:
        return None
    if not sim.inline and threading.current_thread() is not sim.current.thread:
        return None
    if path is not None and not sim.inside(path):
        return None
    return sim


# ---------------------------------------------------------------- file system seam
class SimRaw(io.RawIOBase):
    """Unbuffered file whose reads and writes are events"""

    def __init__(self, sim, fd, path, writing):
        self._sim, self._fd, self._path, self._w = sim, fd, path, writing
        self._broken = None  # error of all further writes
        self._node = sim.current

    def readable(self):
        return not self._w

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self._fd, self.tell() if size is None else size)
        return size

    def _live(self):
        sim = self._sim
        return SIM is sim and sim.current is self._node and not self._node.dead

    def write(self, b):
        data = bytes(b)
        if self._node.dead:
            return len(data)
        if not self._live():
            os.write(self._fd, data)
            return len(data)
        sim = self._sim
        f = sim.event("write", self._path)
        if self._broken:
            raise os_error(self._broken, str(self._path))
        if f is None:
            os.write(self._fd, data)
            return len(data)
        kind = f["kind"]
        if kind in ("torn", "ENOSPC", "EIO"):
            # as the real ones: a short write, and the error comes with the next one
            cut = int(len(data) * f.get("frac", 0.5))
            os.write(self._fd, data[:cut])
            if kind == "torn":
                sim.crash_now()
            self._broken = kind
            if cut:
                return cut
            raise os_error(kind, str(self._path))
        if kind == "crash_after":
            os.write(self._fd, data)
            sim.crash_now()
        if kind == "interrupt_after":
            # delivered at the next operation: the caller has to learn what was written
            os.write(self._fd, data)
            self._node.interrupt = True
            return len(data)
        raise os_error(kind if kind in ERRNO else "EIO", str(self._path))

    def readinto(self, b):
        sim = self._sim
        limit = len(b)
        if self._live():
            f = sim.event("read", self._path)
            if f is not None:
                kind = f["kind"]
                if kind == "short":
                    # the file was cut off: end of file from here on
                    return 0
                if kind == "flip":
                    data = bytearray(os.read(self._fd, limit))
                    if data:
                        data[int(len(data) * f.get("frac", 0.5)) % len(data)] ^= f.get("bit", 0x15)
                    b[:len(data)] = bytes(data)
                    return len(data)
                if kind in ("crash_after", "torn"):
                    sim.crash_now()
                raise os_error(kind if kind in ERRNO else "EIO", str(self._path))
        data = os.read(self._fd, limit)
        b[:len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            try:
                os.close(self._fd)
            except OSError:
                pass
        super().close()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    sim = _on(file) if not isinstance(file, int) else None
    if sim is None or opener is not None or "+" in mode or buffering == 0:
        return R["fopen"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax")
    path = os.fspath(file)
    if writing:
        flags = os.O_WRONLY | os.O_CREAT | os.O_CLOEXEC
        if "w" in mode:
            flags |= os.O_TRUNC
        elif "x" in mode:
            flags |= os.O_EXCL
        else:
            flags |= os.O_APPEND
        f = sim.event("open_w", path)
        fd = sim.apply(f, path, lambda: R["open"](path, flags, 0o666))
    else:
        f = sim.event("open_r", path)
        fd = sim.apply(f, path, lambda: R["open"](path, os.O_RDONLY | os.O_CLOEXEC))
    raw = SimRaw(sim, fd, path, writing)
    size = sim.plan.get("bufsize", 8192)
    if writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, max(size, 4096))
    if "b" in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    text.mode = mode
    return text


def _wrap1(name, label):
    real = R[name]

    def wrapper(path, *a, **k):
        sim = SIM
        if sim is None:
            return real(path, *a, **k)
        if isinstance(path, int) or k.get("dir_fd") is not None:
            sim2 = _on()
            if sim2 is not None and sim2.current.dead:
                raise SimCrash()
            return real(path, *a, **k)
        sim = _on(path)
        if sim is None:
            return real(path, *a, **k)
        f = sim.event(label, path)
        return sim.apply(f, path, lambda: real(path, *a, **k))

    wrapper.__name__ = name
    return wrapper


def _wrap2(name, label):
    real = R[name]

    def wrapper(src, dst, *a, **k):
        sim = _on(dst) or _on(src)
        if sim is None:
            return real(src, dst, *a, **k)
        f = sim.event(label, dst)
        return sim.apply(f, dst, lambda: real(src, dst, *a, **k))

    wrapper.__name__ = name
    return wrapper


class _Scan:
    """scandir result in an order chosen by the simulator"""

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path=".", *a, **k):
    if SIM is None or isinstance(path, int) or path is None:
        sim2 = _on()
        if sim2 is not None and sim2.current.dead:
            raise SimCrash()
        return R["scandir"](path, *a, **k)
    sim = _on(path)
    if sim is None:
        return R["scandir"](path, *a, **k)
    f = sim.event("scandir", path)
    with sim.apply(f, path, lambda: R["scandir"](path, *a, **k)) as it:
        entries = sorted(it, key=lambda e: e.name)
    if sim.plan.get("shuffle", True):
        sim.shuffle_rng.shuffle(entries)
    return _Scan(entries)


def _listdir(path="."):
    if SIM is None or isinstance(path, int) or path is None:
        return R["listdir"](path)
    sim = _on(path)
    if sim is None:
        return R["listdir"](path)
    f = sim.event("scandir", path)
    names = sorted(sim.apply(f, path, lambda: R["listdir"](path)))
    if sim.plan.get("shuffle", True):
        sim.shuffle_rng.shuffle(names)
    return names


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if SIM is None or dir_fd is not None or isinstance(path, int):
        sim2 = _on()
        if sim2 is not None and sim2.current.dead:
            raise SimCrash()
        return R["open"](path, flags, mode, dir_fd=dir_fd)
    sim = _on(path)
    if sim is None:
        return R["open"](path, flags, mode)
    f = sim.event("os_open", path)
    return sim.apply(f, path, lambda: R["open"](path, flags, mode))


def _exists_wrap(name):
    real = R[name]

    def wrapper(path):
        sim = _on(path) if not isinstance(path, int) else None
        if sim is None:
            return real(path)
        sim.event("exists", path)
        return real(path)

    wrapper.__name__ = name
    return wrapper


def _write_table(table, where, *a, **k):
    sim = _on(where) if isinstance(where, (str, os.PathLike)) else None
    if sim is None:
        return R["write_table"](table, where, *a, **k)
    buf = io.BytesIO()
    R["write_table"](table, buf, *a, **k)
    data = buf.getvalue()
    fh = _open(where, "wb")
    try:
        size = sim.plan.get("bufsize", 8192)
        for i in range(0, len(data), size):
            fh.write(data[i:i + size])
        fh.flush()
    finally:
        fh.close()


# ---------------------------------------------------------------- compiler seam
MAGIC = b"SIMSO1\n"
REGISTRY = {}  # sha of source text -> {function name: casadi Function}


def _sha(text):
    if isinstance(text, str):
        text = text.encode()
    return hashlib.sha256(text).hexdigest()


_PRIVATE = [0]


def _private_dir():
    """A directory outside of the simulation (drawing no simulated names)"""
    while True:
        _PRIVATE[0] += 1
        d = "/tmp/dst_p%d_%d" % (R["getpid"](), _PRIVATE[0])
        try:
            os.mkdir(d, 0o700)
            return d
        except FileExistsError:
            pass


class SimCodeGenerator:
    def __init__(self, name, options=None):
        self._g = R["CodeGenerator"](name, options) if options else R["CodeGenerator"](name)
        self._name = name
        self._fns = {}

    def add(self, f, *a):
        self._fns[f.name()] = f
        return self._g.add(f, *a)

    def _register(self, text):
        REGISTRY[_sha(text)] = dict(self._fns)

    def dump(self):
        text = self._g.dump()
        if _on():
            self._register(text)
        return text

    def generate(self, prefix=""):
        sim = _on()
        name = prefix + (self._name if self._name.endswith((".c", ".cpp")) else self._name + ".c")
        if sim is None or not sim.inside(name):
            return self._g.generate(prefix)
        if sim.real_codegen:
            made = self._g.generate(prefix)
            with R["fopen"](made) as f:
                self._register(f.read())
            return made
        stem = os.path.splitext(self._name)
        if stem[0] + (stem[1] or ".c") in prefix:
            raise RuntimeError("casadi: the prefix contains the name of the file")
        d = _private_dir()
        try:  # the text casadi would write
            self._g.generate(d + "/")
            made = {}
            for x in sorted(R["listdir"](d)):
                with R["fopen"](os.path.join(d, x)) as f:
                    made[x] = f.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for x, text in made.items():
            if x.endswith((".c", ".cpp")):
                self._register(text)
                name = prefix + x
            try:
                with _open(prefix + x, "w") as f:
                    f.write(text)
            except OSError:
                pass  # as casadi, which doesn't look whether writing works
        return name

    def __getattr__(self, k):
        return getattr(self._g, k)


class SimExternal:
    """A function loaded from a simulated shared library"""

    def __init__(self, fn):
        self._fn = fn

    def __call__(self, *a, **k):
        return self._fn(*a, **k)

    def map(self, n, *a):
        sim = _on()
        if sim is not None:
            cas_event(sim, "cas_map")
        return SimMapped(self, self._fn.map(n, "serial"))

    def __getattr__(self, k):
        return getattr(self._fn, k)


def cas_event(sim, label):
    f = sim.event(label)
    if f is None:
        return
    if f["kind"] in ("crash_after", "torn"):
        sim.crash_now()
    if f["kind"] == "ENOMEM":
        raise MemoryError("std::bad_alloc")
    raise RuntimeError("casadi: %s failed" % label)


class SimMapped:
    """The mapped (batched) version of a loaded function"""

    def __init__(self, ext, fn):
        self._ext, self._fn = ext, fn

    def __call__(self, *a, **k):
        sim = _on()
        if sim is not None and sim.plan.get("cas_faults"):
            cas_event(sim, "cas_call")
        return self._fn(*a, **k)

    def __getattr__(self, k):
        return getattr(self._fn, k)


class _Lib:
    """A loaded library: stays as it was loaded while any of its functions is alive"""

    def __init__(self, path, ident, data):
        self.path, self.ident, self.data = path, ident, data
        self.users = weakref.WeakSet()
        # like a mapping, this keeps the inode from being used for another file
        self.fd = R["open"](path, os.O_RDONLY | os.O_CLOEXEC)

    def __del__(self):
        try:
            os.close(self.fd)
        except (OSError, AttributeError, TypeError):
            pass


def _external(name, *args):
    path = args[0] if args and isinstance(args[0], str) else None
    sim = _on(path) if path is not None else None
    if sim is None:
        return R["external"](name, *args)
    f = sim.event("dlopen", path)
    if f is not None:
        if f["kind"] in ("crash_after", "torn"):
            sim.crash_now()
        raise RuntimeError("dlopen of %s failed: %s" % (path, f["kind"]))
    if "/" not in path or not R["exists"](path):
        raise RuntimeError("dlopen: cannot open shared object file %s" % path)
    if sim.plan.get("real_cc"):
        return R["external"](name, path)
    st = os.stat(path)
    ident = (st.st_dev, st.st_ino)
    apath = os.path.abspath(path)
    node = sim.current
    lib = None
    if any(c.path == apath or c.ident == ident for c in node.loaded):
        gc.collect()  # which libraries are still in use must not depend on chance
        node.loaded = [c for c in node.loaded if len(c.users)]
    for cand in node.loaded:
        if len(cand.users) and (cand.path == apath or cand.ident == ident):
            lib = cand
            break
    if lib is None:
        with R["fopen"](path, "rb") as fh:
            data = fh.read()
        lib = _Lib(apath, ident, data)
        node.loaded.append(lib)
    fn = _load_function(sim, lib.data, name, path)
    ext = SimExternal(fn)
    lib.users.add(ext)
    return ext


def _load_function(sim, data, name, path):
    if not data.startswith(MAGIC) or not data.endswith(b"\nEND\n"):
        sim.probe("load_incomplete_library")
        raise RuntimeError("dlopen: %s: file too short / invalid ELF header" % path)
    head, sha, _ = data[len(MAGIC) - 1:].split(b"\n", 2)
    sha = sha.decode()
    if sha in REGISTRY:
        fns = REGISTRY[sha]
        if name not in fns:
            raise RuntimeError("dlopen: undefined symbol %s in %s" % (name, path))
        return fns[name]
    # Not a text the code generator made (eg: something added to it): really compile.
    sim.probe("library_compiled_for_real")
    source = data[len(MAGIC) + len(sha) + 1:-5]
    d = _private_dir()
    try:
        src, out = os.path.join(d, "x.c"), os.path.join(d, "x_%s.so" % sha[:12])
        with R["fopen"](src, "wb") as fh:
            fh.write(source)
        p = R["Popen"](["gcc", "-fPIC", "-O1", "-shared", src, "-o", out])
        p.wait()
        fn = R["external"](name, out)
        return fn
    finally:
        shutil.rmtree(d, ignore_errors=True)


class _CompileFailed(Exception):
    pass


def _compile(sim, args, cwd=None):
    """The simulated compiler process. Returns its exit status."""

    def path_of(p):
        return os.path.join(cwd, p) if cwd else p

    src = out = None
    it = iter(args[1:])
    for a in it:
        if a == "-o":
            out = next(it, None)
        elif a.startswith("-o") and len(a) > 2 and "/" in a:
            out = a[2:]
        elif a.endswith(".c"):
            src = a
    out = path_of(out or "a.out")
    f = sim.event("cc_start", out)
    if f is not None:
        if f["kind"] in ERRNO or f["kind"] == "fail":
            return 1
        return -9
    if src is None or not R["exists"](path_of(src)):
        sim.probe("cc_source_missing")
        return 1
    with R["fopen"](path_of(src), "rb") as fh:
        text = fh.read()
    if not _complete_c(text):
        sim.probe("cc_incomplete_source")
        return 1
    if sim.plan.get("real_cc"):
        d = _private_dir()
        try:
            s, o = os.path.join(d, "x.c"), os.path.join(d, "x.so")
            with R["fopen"](s, "wb") as fh:
                fh.write(text)
            if R["Popen"](["gcc", "-fPIC", "-O0", "-shared", s, "-o", o]).wait() != 0:
                return 1
            with R["fopen"](o, "rb") as fh:
                data = fh.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:
        data = MAGIC + _sha(text).encode() + b"\n" + text + b"\nEND\n"
    # the linker removes an existing output file and writes a new one
    f = sim.event("cc_create", out)
    if f is not None:
        return 1 if f["kind"] in ERRNO or f["kind"] == "fail" else -9
    try:
        if R["lexists"](out):
            R["unlink"](out)
        fd = R["open"](out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o777)
    except OSError:
        return 1
    try:
        half = int(len(data) * sim.plan.get("cc_cut", 0.5))
        os.write(fd, data[:half])
        f = sim.event("cc_write", out)
        if f is not None:
            if f["kind"] in ERRNO or f["kind"] == "fail":
                # a failing linker removes its output, but only most of the time
                if f.get("leave", True) is False:
                    R["unlink"](out)
                return 1
            return -9  # killed, incomplete output left behind
        os.write(fd, data[half:])
    finally:
        os.close(fd)
    f = sim.event("cc_exit", out)
    if f is not None and f["kind"] == "fail":
        return 1
    return 0


def _complete_c(text):
    t = text.rstrip()
    return t.count(b"{") == t.count(b"}") and len(t) > 0


class SimPopen:
    """subprocess.Popen for the compiler; anything else runs for real."""

    def __new__(cls, args, *a, **k):
        sim = _on()
        if sim is None:
            return R["Popen"](args, *a, **k)
        return super().__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, **kw):
        sim = _on()
        if isinstance(args, (str, bytes, os.PathLike)):
            import shlex
            argv = shlex.split(os.fspath(args))
        else:
            argv = [os.fspath(x) for x in args]
        self.args = args
        self.returncode = None
        self.stdin = None
        self.stdout = None
        self.stderr = None
        self._out = io.BytesIO() if stdout == subprocess.PIPE else None
        self._text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        self._sim = sim
        f = sim.event("spawn", argv[0])
        if f is not None:
            if f["kind"] == "missing":
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
            if f["kind"] in ERRNO:
                raise os_error(f["kind"], argv[0])
            if f["kind"] in ("crash_after", "torn"):
                sim.crash_now()
        prog = os.path.basename(argv[0])
        self._status = [None]

        def body():
            if not any(s in prog for s in ("gcc", "cc", "clang")):
                sim.probe("unknown_program_" + prog)
                self._status[0] = 127
            else:
                self._status[0] = _compile(sim, argv, cwd)

        self._body = body
        self.pid = 50000 + sim.steps
        if sim.inline:
            self._node = None
            body()
        else:
            self._node = sim.add_node("cc%d" % len(sim.nodes), body)

    def poll(self):
        if self.returncode is None:
            if self._node is None or self._node.done:
                self._collect()
        return self.returncode

    def _collect(self):
        rc = self._status[0]
        self.returncode = -9 if rc is None else rc

    def wait(self, timeout=None):
        if self.returncode is None:
            sim = self._sim
            if self._node is not None:
                if sim.current.dead:
                    raise SimCrash()
                sim.wait_for(sim.current, self._node)
            self._collect()
            f = sim.event("waited", str(self.returncode))
            if f is not None and f["kind"] in ("crash_after", "torn"):
                sim.crash_now()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait()
        empty = "" if self._text else b""
        return (empty if self._out is not None else None), None

    def kill(self):
        self.wait()

    terminate = kill

    def send_signal(self, sig):
        self.wait()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if exc[0] is not None and issubclass(exc[0], SimCrash):
            return
        self.wait()


def _system(cmd):
    sim = _on()
    if sim is None:
        return R["system"](cmd)
    p = SimPopen(cmd, shell=True)
    rc = p.wait()
    return rc << 8 if rc >= 0 else -rc


# ------------------------------------------------------------------- clock seam
class _SimDateTimeMeta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, R["datetime"])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, R["datetime"])


class SimDateTime(R["datetime"], metaclass=_SimDateTimeMeta):
    @classmethod
    def now(cls, tz=None):
        sim = _on()
        if sim is None:
            return R["datetime"].now(tz)
        sim.probe("clock_read")
        base = R["datetime"](1970, 1, 1) + _dt.timedelta(microseconds=sim.now_us)
        if tz is not None:
            return base.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
        return base

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


def _time():
    sim = _on()
    return R["time"]() if sim is None else sim.now_us / 1e6


def _time_ns():
    sim = _on()
    return R["time_ns"]() if sim is None else sim.now_us * 1000


def _gmtime(*a):
    sim = _on()
    if sim is None or (a and a[0] is not None):
        return R["gmtime"](*a)
    return R["gmtime"](sim.now_us / 1e6)


def _localtime(*a):
    sim = _on()
    if sim is None or (a and a[0] is not None):
        return R["localtime"](*a)
    return R["gmtime"](sim.now_us / 1e6)


def _strftime(fmt, *a):
    sim = _on()
    if sim is None or a:
        return R["strftime"](fmt, *a)
    return R["strftime"](fmt, _localtime())


def _sleep(s):
    sim = _on()
    if sim is None:
        return R["sleep"](s)
    sim.advance(int(s * 1e6))
    sim.event("sleep")


def _getpid():
    sim = _on()
    return R["getpid"]() if sim is None else sim.current.pid


def _urandom(n):
    sim = _on()
    if sim is None:
        return R["urandom"](n)
    return bytes(sim.current.rng.randrange(256) for _ in range(n))


def _names():
    sim = _on()
    if sim is None:
        return R["names"]()
    return sim.current.names()


_installed = False


def install():
    global _installed
    if _installed:
        return
    assert "lumos" not in sys.modules, "the seams must be installed before lumos is imported"
    _installed = True
    builtins.open = _open
    io.open = _open
    os.remove = _wrap1("remove", "remove")
    os.unlink = _wrap1("unlink", "remove")
    os.mkdir = _wrap1("mkdir", "mkdir")
    os.rmdir = _wrap1("rmdir", "rmdir")
    os.truncate = _wrap1("truncate", "truncate")
    os.replace = _wrap2("replace", "replace")
    os.rename = _wrap2("rename", "replace")
    os.link = _wrap2("link", "link")
    os.symlink = _wrap2("symlink", "link")
    os.scandir = _scandir
    os.listdir = _listdir
    os.open = _os_open
    os.getpid = _getpid
    os.urandom = _urandom
    os.system = _system
    random._urandom = _urandom
    os.path.exists = _exists_wrap("exists")
    os.path.isfile = _exists_wrap("isfile")
    os.path.isdir = _exists_wrap("isdir")
    tempfile._get_candidate_names = _names
    pq.write_table = _write_table
    casadi.CodeGenerator = SimCodeGenerator
    casadi.external = _external
    subprocess.Popen = SimPopen
    _dt.datetime = SimDateTime
    time.time = _time
    time.time_ns = _time_ns
    time.sleep = _sleep
    time.strftime = _strftime
    time.localtime = _localtime
    time.gmtime = _gmtime
    from dst import simipopt
    cyipopt.Problem = simipopt.make_problem


install()
