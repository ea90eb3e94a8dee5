"""The simulated machine the Python scripts run on.

Everything through which a script reaches the world (files, directories, child processes, clocks, entropy,
the prediction service) is replaced in this process; one thread per simulated script, of which exactly one
runs at a time; a seeded scheduler picks among them at every operation.  Children are stubs with a timeline.
"""
import signal, sys, os, io, _thread, threading, time, errno, stat as st, hashlib, heapq, gc, types, random as _random

_ident = _thread.get_ident
BY = {}                      # thread id -> Proc

def cur():
    return BY.get(_ident())

class Crash(BaseException):
    pass

class Harness(Exception):
    pass

MS = 1_000_000
SEC = 1_000_000_000

# ------------------------------------------------------------------------------------------------ files
class Node:
    __slots__ = ("data", "kind", "ino", "exe")
    N = 0
    def __init__(self, kind, data=b"", exe=False):
        Node.N += 1
        self.kind, self.data, self.ino, self.exe = kind, bytearray(data), Node.N, exe

def oserr(e, path=None):
    return OSError(e, os.strerror(e), path) if path is not None else OSError(e, os.strerror(e))

class Raw(io.RawIOBase):
    """An open file."""
    def __init__(self, p, node, path, rd, wr, app, cls="file"):
        self.p, self.node, self.name, self.rd, self.wr, self.app, self.pos, self.cls = p, node, path, rd, wr, app, 0, cls
        self.mode = "rb" if rd and not wr else "wb" if wr and not rd else "rb+"
        self.fd = p.fd(self)
        self.shut = False
    def readable(self): return self.rd
    def writable(self): return self.wr
    def seekable(self): return self.cls == "file"
    def fileno(self): return self.fd
    def isatty(self): return False
    def tell(self): return self.pos
    def seek(self, off, whence=0):
        if self.cls != "file": raise oserr(errno.ESPIPE)
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.node.data) + off
        return self.pos
    def truncate(self, n=None):
        n = self.pos if n is None else n
        d = self.node.data
        if n < len(d): del d[n:]
        else: d.extend(b"\0" * (n - len(d)))
        return n
    def readinto(self, b):
        if not self.rd: raise io.UnsupportedOperation("not readable")
        act = self.p.step("read", self.name)
        if self.node.kind == "d": raise oserr(errno.EISDIR)
        n = len(b)
        if act and act.startswith("short"): n = max(1, min(n, int(act[5:])))
        elif act: raise oserr(getattr(errno, act))
        d = self.node.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)
    def write(self, b):
        b = bytes(b)
        if not self.wr: raise io.UnsupportedOperation("not writable")
        act = self.p.step("stdout" if self.cls == "stdout" else "write", self.name)
        n = len(b)
        if act and act.startswith("short"): n = max(1, min(n, int(act[5:]))) if n else 0
        elif act and act.startswith("mid"):
            self._put(b[:min(n, int(act[3:]))])
            self.p.die()
        elif act: raise oserr(getattr(errno, act))
        left = self.p.w.disk_left
        if left is not None and self.cls == "file":
            if left <= 0 and n: raise oserr(errno.ENOSPC)
            n = min(n, left)
            self.p.w.disk_left = left - n
        self._put(b[:n])
        return n
    def _put(self, b):
        d = self.node.data
        if self.app: self.pos = len(d)
        if self.pos > len(d): d.extend(b"\0" * (self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
    def close(self):
        if self.closed: return
        super().close()
        if self.shut: return
        self.shut = True
        self.p.fds.pop(self.fd, None)
        if not self.p.dead:
            act = self.p.step("close", self.name)
            if act: raise oserr(getattr(errno, act))

class PipeRaw(io.RawIOBase):
    """The parent's end of a child's stdout or stderr."""
    def __init__(self, p, child, which):
        self.p, self.child, self.which, self.pos = p, child, which, 0
        self.fd = p.fd(self)
        self.name, self.rd, self.wr, self.cls = "pipe", True, False, "pipe"
    def readable(self): return True
    def fileno(self): return self.fd
    def isatty(self): return False
    def readinto(self, b):
        self.p.step("read", "pipe")
        while True:
            d = bytes(self.child.got[self.which][self.pos:self.pos + len(b)])
            if d:
                b[:len(d)] = d
                self.pos += len(d)
                return len(d)
            if self.child.code is not None: return 0
            self.p.block(self.child.next_event())

# ------------------------------------------------------------------------------------------------ processes
class Proc:
    def __init__(self, w, idx, script, argv, cwd, phase, delay=0):
        self.w, self.idx, self.script, self.argv, self.cwd, self.phase = w, idx, script, list(argv), cwd, phase
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.n, self.fds, self.next_fd = {}, {}, 1_000_003
        self.dead = self.done = self.killed = False
        self.wake, self.code, self.err = delay, None, ""
        self.importing = 0
        self.mods, self.children = {}, []
        self.files = []
        self.out = Node("f")
        self.pid = 1000 + idx
        self.nfork = 0
        self.rng = _random.Random(w.rnd * 1000003 + idx)
        self.steps = 0
        self.rstate = None
    def fd(self, raw):
        self.next_fd += 1
        self.fds[self.next_fd] = raw
        return self.next_fd
    def path(self, x):
        x = os.fspath(x)
        if isinstance(x, bytes): x = os.fsdecode(x)
        if not x: raise oserr(errno.ENOENT, x)
        if "\0" in x: raise ValueError("embedded null byte")
        return self.w.norm(x, self.cwd)
    def die(self):
        self.dead = self.killed = True
        self.w.event(self.idx, "crash", "")
        raise Crash()
    def step(self, cls, detail):
        """One operation: time passes, others may run, a fault may strike."""
        w = self.w
        if self.dead: raise Crash()
        self.steps += 1
        w.nops += 1
        if w.nops > w.limit:
            w.endless = True
            self.die()
        k = self.n[cls] = self.n.get(cls, 0) + 1
        w.advance(w.now + 20_000 + self.rng.randrange(60_000))
        w.event(self.idx, cls, detail)
        if w.several and not self.importing:
            w.switch(self)
        f = w.fault.get((self.idx, cls, k))
        if f is None: return None
        w.hits.append((self.idx, cls, f))
        w.event(self.idx, "fault", f)
        if f == "crash": self.die()
        if f.startswith("jump"):
            w.wall += int(f[4:]) * MS
            return None
        return f
    def block(self, t):
        """Wait until time t."""
        if self.w.one and not self.w.several:
            self.w.advance(max(t, self.w.now))
            return
        self.wake = max(t, self.w.now)
        self.w.switch(self, True)

class Child:
    """A running program: a timeline of effects."""
    def __init__(self, p, prog, argv, events, t0):
        # events: (at, kind, payload); the last is an exit
        self.p, self.prog, self.argv = p, prog, argv
        self.got = {"out": bytearray(), "err": bytearray()}
        self.code, self.t0 = None, t0
        self.events = sorted(events, key=lambda e: e[0])
        self.end = next((e[0] for e in self.events if e[1] == "exit"), None)
        self.redirect = {}
    def next_event(self):
        return self.events[0][0] if self.events else self.p.w.now + 3600 * SEC
    def run_to(self, t):
        while self.events and self.events[0][0] <= t and self.code is None:
            _, kind, x = self.events.pop(0)
            w = self.p.w
            if kind in ("out", "err"):
                r = self.redirect.get(kind)
                if r is not None: r._put(x)
                else: self.got[kind] += x
            elif kind == "exit":
                self.code = x
                self.events = []
            elif kind == "do":
                try:
                    x()
                except OSError:
                    self.code = 1
                    self.events = []
    def kill(self, sig):
        if self.code is None:
            self.killed_at = self.p.w.now
            self.code = -sig
            self.events = []

class World:
    def __init__(self, rnd, sched_seed=None, schedule=None, faults=(), disk_left=None, programs=None, wall0=1_700_000_000):
        self.rnd = rnd
        self.nodes = {"/": Node("d"), "/tmp": Node("d")}
        self.now, self.wall = 0, wall0 * SEC
        self.events_h = hashlib.blake2b(digest_size=8)
        self.log = None
        self.fault = {(f["p"], f["cls"], f["n"]): f["act"] for f in faults}
        self.hits = []
        self.nops, self.limit, self.endless = 0, 60_000, False
        self.choices, self.script_choices = [], list(schedule or [])
        self.sched = _random.Random(sched_seed) if sched_seed is not None else None
        self.procs, self.children, self.calls, self.requests = [], [], [], []
        if "tempfile" in sys.modules: sys.modules["tempfile"]._name_sequence = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.several = False
        self.one = True
        self.switches = 0
        self.disk_left = disk_left
        self.programs = programs or {}
        self.unmodelled = None
        self.running = None
    # -- file tree
    def norm(self, x, cwd):
        return os.path.normpath(x if x.startswith("/") else cwd + "/" + x).replace("//", "/")
    def mkdirs(self, path):
        parts = path.strip("/").split("/")
        for i in range(1, len(parts) + 1):
            self.nodes.setdefault("/" + "/".join(parts[:i]), Node("d"))
    def put(self, path, data, exe=False):
        self.mkdirs(os.path.dirname(path))
        self.nodes[path] = Node("f", data if isinstance(data, bytes) else data.encode(), exe)
    def text(self, path):
        n = self.nodes.get(path)
        return None if n is None or n.kind == "d" else bytes(n.data)
    def find(self, path):
        n = self.nodes.get(path)
        if n is None:
            q = os.path.dirname(path)
            while q != "/" and q not in self.nodes: q = os.path.dirname(q)
            if self.nodes[q].kind != "d": raise oserr(errno.ENOTDIR, path)
            raise oserr(errno.ENOENT, path)
        return n
    # -- time, children, schedule
    def event(self, who, what, detail):
        self.events_h.update(f"{who} {what} {detail}\n".encode("utf-8", "surrogateescape"))
        if self.log is not None: self.log.append(f"{self.now/1e6:12.3f} ms  {who} {what} {detail}")
    def advance(self, t):
        while True:
            c = min((c for c in self.children if c.code is None and c.events), key=lambda c: c.events[0][0], default=None)
            if c is None or c.events[0][0] > t: break
            self.wall += max(0, c.events[0][0] - self.now)
            self.now = max(self.now, c.events[0][0])
            c.run_to(self.now)
        if t > self.now:
            self.wall += t - self.now
            self.now = t
    def switch(self, p, must=False):
        """p offers the processor."""
        if not must: p.wake = self.now
        p.swap_out()
        BY.pop(_ident(), None)
        self.main.release()
        p.lock.acquire()
        BY[_ident()] = p
        p.swap_in()
        if p.dead: raise Crash()
    def choose(self, n):
        if n == 1: return 0
        k = len(self.choices)
        c = self.sched.randrange(n) if self.sched else (self.script_choices[k] if k < len(self.script_choices) else 0) % n
        self.choices.append(c)
        return c
    def run_phase(self, procs):
        self.several = len(procs) > 1
        self.one = not self.several
        for p in procs:
            p.wake += self.now
            _thread.start_new_thread(p.main_, ())
        last = None
        while True:
            live = [p for p in procs if not p.done]
            self.several = len(live) > 1
            if not live: break
            ready = [p for p in live if p.wake <= self.now]
            if not ready:
                self.advance(min(p.wake for p in live))
                continue
            p = ready[self.choose(len(ready))]
            if p is not last: self.switches += 1
            last = p
            self.running = p
            p.lock.release()
            self.main.acquire()
        self.one = True

# ------------------------------------------------------------------------------------------------ scripts
class Scripts:
    """The scripts under test, compiled from the repository's working tree."""
    def __init__(self, dir):
        self.dir, self.code, self.names = dir, {}, set()
        for f in sorted(_real["listdir"](dir)):
            if f.endswith(".py"):
                with _real["open"](dir + "/" + f, "rb") as h:
                    src = h.read()
                self.names.add(f[:-3])
                try:
                    self.code[f[:-3]] = compile(src, dir + "/" + f, "exec")
                except SyntaxError as e:
                    self.code[f[:-3]] = e

class Finder:
    """Imports of sibling scripts, fresh for every simulated process."""
    def __init__(self): self.scripts = None
    def find_spec(self, name, path=None, target=None):
        if self.scripts and name in self.scripts.names and cur() is not None:
            from importlib.machinery import ModuleSpec
            return ModuleSpec(name, self, origin=self.scripts.dir + "/" + name + ".py")
        return None
    def create_module(self, spec): return None
    def exec_module(self, module):
        p = cur()
        code = self.scripts.code[module.__name__]
        if isinstance(code, SyntaxError): raise code
        p.importing += 1
        try:
            exec(code, module.__dict__)
        finally:
            p.importing -= 1
FINDER = Finder()

def _swap_in(p):
    _random.setstate(p.rstate) if p.rstate else _random.seed(p.w.rnd * 7919 + p.idx)
    sys.argv = p.argv
    sys.stdout, sys.stderr = p.stdout, p.stderr
    sys.modules.update(p.mods)
def _swap_out(p):
    p.rstate = _random.getstate()
    p.argv, p.stdout, p.stderr = sys.argv, sys.stdout, sys.stderr
    for n in FINDER.scripts.names:
        m = sys.modules.pop(n, None)
        if m is not None: p.mods[n] = m
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
Proc.swap_in, Proc.swap_out = _swap_in, _swap_out

def _main(p):
    signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGVTALRM])    # for the main thread (dst.spinning)
    p.lock.acquire()
    BY[_ident()] = p
    w = p.w
    outraw = Raw(p, p.out, "<stdout>", False, True, True, "stdout")
    p.stdout = io.TextIOWrapper(io.BufferedWriter(outraw), encoding="utf-8", errors="strict")
    p.stderr = io.StringIO()
    p.swap_in()
    code = 0
    ns = {"__name__": "__main__", "__file__": p.script, "__builtins__": __builtins__}
    try:
        try:
            c = FINDER.scripts.code.get(p.script)
            if c is None: raise Harness("no script " + p.script)
            if isinstance(c, SyntaxError): raise c
            exec(c, ns)
        except Crash:
            raise
        except SystemExit as e:
            c = e.code
            code = 0 if c is None else c & 255 if isinstance(c, int) else 1
            e.__traceback__ = None
        except BaseException as e:
            code = 1
            p.err = f"{type(e).__name__}: {e}"
            tb = e.__traceback__
            while tb is not None:
                p.where = f"{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}"
                if tb.tb_frame.f_code.co_filename.startswith(FINDER.scripts.dir): p.at = p.where
                tb = tb.tb_next
            p.err += " at " + getattr(p, "at", "?")
            e.__traceback__ = None
            del tb
            import traceback
            x = e.__context__
            while x is not None:
                x.__traceback__ = None
                x = x.__context__
        # what the interpreter does at its end: flush the standard output, then drop everything
        try:
            p.stdout.flush()
        except OSError:
            code = 120 if code == 0 else code
        ns.clear()
        for n in list(FINDER.scripts.names):
            m = sys.modules.pop(n, None)
            if m is not None: m.__dict__.clear()
        gc.collect()
        for f in p.files:
            f = f()
            if f is not None:
                try: f.close()
                except (OSError, ValueError): pass
    except Crash:
        code = None
    except BaseException as e:       # a fault of the simulator
        p.w.unmodelled = f"harness: {type(e).__name__}: {e}"
        code = 1
    p.dead = True
    p.code = code
    if code is None: p.killed = True
    for c in list(FINDER.scripts.names): sys.modules.pop(c, None)
    p.mods = {}
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    sys.argv = ["sim"]
    BY.pop(_ident(), None)
    p.done = True
    w.event(p.idx, "end", code)
    w.main.release()
Proc.main_ = _main

# ------------------------------------------------------------------------------------------------ the seam
_real = {}
def _patch(mod, name, sim):
    orig = getattr(mod, name)
    _real.setdefault(name, orig)
    def f(*a, **k):
        p = BY.get(_ident())
        return sim(p, *a, **k) if p is not None else orig(*a, **k)
    f.__name__ = name
    f.__wrapped_real__ = orig
    setattr(mod, name, f)
    return f

def s_os_open(p, path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is not None: raise Harness("dir_fd")
    q = p.path(path)
    act = p.step("open", q)
    if act: raise oserr(getattr(errno, act), os.fspath(path))
    w = p.w
    n = w.nodes.get(q)
    acc = flags & 3
    if n is None:
        w.find(os.path.dirname(q)) if os.path.dirname(q) not in w.nodes else None
        if not flags & os.O_CREAT:
            w.find(q)
        if w.nodes[os.path.dirname(q)].kind != "d": raise oserr(errno.ENOTDIR, os.fspath(path))
        if w.disk_left is not None and w.disk_left <= 0: raise oserr(errno.ENOSPC, os.fspath(path))
        n = w.nodes[q] = Node("f")
    else:
        if flags & os.O_CREAT and flags & os.O_EXCL: raise oserr(errno.EEXIST, os.fspath(path))
        if n.kind == "d" and acc != os.O_RDONLY: raise oserr(errno.EISDIR, os.fspath(path))
        if flags & os.O_TRUNC and acc != os.O_RDONLY: del n.data[:]
    r = Raw(p, n, os.fspath(path), acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR), bool(flags & os.O_APPEND))
    return r.fd

def s_open(p, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    import weakref
    if not isinstance(file, int): file = os.fspath(file)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes): raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending, updating = ("x" in modes, "r" in modes, "w" in modes, "a" in modes, "+" in modes)
    text, binary = "t" in modes, "b" in modes
    if text and binary: raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1: raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and (encoding is not None or errors is not None or newline is not None): raise ValueError("binary mode doesn't take that argument")
    flags = os.O_RDWR if updating else os.O_RDONLY if reading else os.O_WRONLY
    flags |= os.O_CREAT | os.O_EXCL if creating else os.O_CREAT | os.O_TRUNC if writing else os.O_CREAT | os.O_APPEND if appending else 0
    if isinstance(file, int): fd = file
    elif opener is not None: fd = opener(file, flags)
    else: fd = s_os_open(p, file, flags)
    raw = p.fds.get(fd)
    if raw is None: raise oserr(errno.EBADF)
    if isinstance(raw, PipeRaw): raw.mode = "rb"
    else: raw.name = file
    line = False
    if buffering == 1 and not binary: buffering, line = -1, True
    if buffering < 0 or buffering == 1: buffering = 8192
    if buffering == 0:
        if binary: return raw
        raise ValueError("can't have unbuffered text I/O")
    b = (io.BufferedRandom if updating else io.BufferedReader if reading else io.BufferedWriter)(raw, buffering)
    p.files.append(weakref.ref(b))
    if binary: return b
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line)
    t.mode = mode
    p.files.insert(0, weakref.ref(t))
    return t

def s_close(p, fd):
    r = p.fds.pop(fd, None)
    if r is None: raise oserr(errno.EBADF)
    r.close()
def s_read(p, fd, n):
    b = bytearray(n)
    k = p.fds[fd].readinto(b)
    return bytes(b[:k])
def s_write(p, fd, b):
    if fd in (1, 2): return len(b)
    return p.fds[fd].write(b)
def s_stat(p, path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int): return s_fstat(p, path)
    q = p.path(path)
    act = p.step("stat", q)
    if act: raise oserr(getattr(errno, act), os.fspath(path))
    return mkstat(p.w.find(q))
def mkstat(n):
    mode = st.S_IFDIR | 0o755 if n.kind == "d" else st.S_IFREG | (0o755 if n.exe else 0o644)
    return os.stat_result((mode, n.ino, 1, 1, 0, 0, len(n.data), 0, 0, 0))
def s_fstat(p, fd):
    r = p.fds.get(fd)
    if r is None: raise oserr(errno.EBADF)
    return mkstat(r.node) if isinstance(r, Raw) else os.stat_result((st.S_IFIFO | 0o600, 1, 1, 1, 0, 0, 0, 0, 0, 0))
def s_access(p, path, mode, **k):
    q = p.path(path)
    p.step("stat", q)
    n = p.w.nodes.get(q)
    return n is not None and (not mode & os.X_OK or n.exe or n.kind == "d")
def s_mkdir(p, path, mode=0o777, *, dir_fd=None):
    q = p.path(path)
    act = p.step("mkdir", q)
    if act: raise oserr(getattr(errno, act), os.fspath(path))
    if q in p.w.nodes: raise oserr(errno.EEXIST, os.fspath(path))
    p.w.find(os.path.dirname(q))
    p.w.nodes[q] = Node("d")
def s_unlink(p, path, *, dir_fd=None):
    q = p.path(path)
    act = p.step("unlink", q)
    if act: raise oserr(getattr(errno, act), os.fspath(path))
    if p.w.find(q).kind == "d": raise oserr(errno.EISDIR, os.fspath(path))
    del p.w.nodes[q]
def s_rmdir(p, path, *, dir_fd=None):
    q = p.path(path)
    p.step("unlink", q)
    p.w.find(q)
    if any(k.startswith(q + "/") for k in p.w.nodes): raise oserr(errno.ENOTEMPTY, os.fspath(path))
    del p.w.nodes[q]
def s_rename(p, a, b, **k):
    x, y = p.path(a), p.path(b)
    act = p.step("rename", x + " " + y)
    if act: raise oserr(getattr(errno, act), os.fspath(a))
    n = p.w.find(x)
    if n.kind == "d": raise Harness("rename of a directory")
    p.w.find(os.path.dirname(y))
    p.w.nodes[y] = n
    if x != y: del p.w.nodes[x]
def names(p, path):
    q = p.path(path if path is not None else ".")
    act = p.step("readdir", q)
    if act: raise oserr(getattr(errno, act), path)
    if p.w.find(q).kind != "d": raise oserr(errno.ENOTDIR, path)
    pre = q.rstrip("/") + "/"
    v = [k[len(pre):] for k in p.w.nodes if k.startswith(pre) and k != "/" and "/" not in k[len(pre):]]
    p.rng.shuffle(v)
    return q, v
def s_listdir(p, path="."): return names(p, path)[1]
class Entry:
    def __init__(self, p, dir, q, name): self.p, self.name, self.path, self.n = p, name, os.path.join(dir, name), p.w.nodes[(q.rstrip("/") + "/" + name)]
    def is_dir(self, *, follow_symlinks=True): return self.n.kind == "d"
    def is_file(self, *, follow_symlinks=True): return self.n.kind == "f"
    def is_symlink(self): return False
    def stat(self, *, follow_symlinks=True): return mkstat(self.n)
    def inode(self): return self.n.ino
    def __fspath__(self): return self.path
class Scan(list):
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
def s_scandir(p, path="."):
    q, v = names(p, path)
    return iter_scan(Scan(Entry(p, os.fspath(path), q, n) for n in v))
class iter_scan:
    def __init__(self, v): self.v = iter(v)
    def __iter__(self): return self
    def __next__(self): return next(self.v)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
def s_chdir(p, path):
    q = p.path(path)
    p.step("stat", q)
    if p.w.find(q).kind != "d": raise oserr(errno.ENOTDIR, path)
    p.cwd = q
def s_urandom(p, n): return p.rng.randbytes(n)
def nothing(p, *a, **k): p.step("other", "")
def refused(what):
    def f(p, *a, **k): raise Harness(what + " is not modelled")
    return f
def s_wall(p):
    p.step("clock", "wall")
    return p.w.wall
def s_mono(p):
    p.step("clock", "mono")
    return p.w.now + 5 * SEC
def s_sleep(p, s):
    p.step("clock", "sleep")
    p.block(p.w.now + int(s * SEC))
def s_localtime(name):
    def f(p, secs=None): return _real[name](s_wall(p) / 1e9 if secs is None else secs)
    return f
def s_os_exit(p, code):
    raise Harness("os._exit is not modelled")

def install():
    import builtins
    for name, f in dict(open=s_os_open, close=s_close, read=s_read, write=s_write, stat=s_stat, lstat=s_stat, fstat=s_fstat,
                        access=s_access, mkdir=s_mkdir, unlink=s_unlink, remove=s_unlink, rmdir=s_rmdir, rename=s_rename,
                        replace=s_rename, listdir=s_listdir, scandir=s_scandir, chdir=s_chdir, urandom=s_urandom,
                        chmod=nothing, utime=nothing, fsync=nothing, fdatasync=nothing,
                        getcwd=lambda p: p.cwd, getpid=lambda p: p.pid, getppid=lambda p: 1,
                        symlink=refused("symlink"), link=refused("link"), fork=refused("fork"), _exit=s_os_exit,
                        posix_spawn=refused("posix_spawn"), posix_spawnp=refused("posix_spawnp"), execv=refused("exec"), execve=refused("exec"),
                        kill=refused("kill"), pipe=refused("pipe"), dup=refused("dup"), dup2=refused("dup2"), truncate=refused("truncate"),
                        sendfile=refused("sendfile"), readlink=refused("readlink")).items():
        _patch(os, name, f)
    _real["os_open"] = _real.pop("open")
    o = _patch(builtins, "open", s_open)
    io.open = o
    for name, f in dict(time=lambda p: s_wall(p) / 1e9, time_ns=s_wall, monotonic=lambda p: s_mono(p) / 1e9, monotonic_ns=s_mono,
                        perf_counter=lambda p: s_mono(p) / 1e9, perf_counter_ns=s_mono, process_time=lambda p: s_mono(p) / 1e9,
                        sleep=s_sleep, localtime=s_localtime("localtime"), gmtime=s_localtime("gmtime")).items():
        _patch(time, name, f)
    sys.meta_path.insert(0, FINDER)
    sys.dont_write_bytecode = True
    sys.unraisablehook = lambda *a: None
    import tempfile, shutil, pathlib, subprocess, shlex, uuid, configparser, json, csv, re, statistics, math, argparse, collections, itertools, functools, contextlib, string, traceback
    for m in ("multiprocessing", "concurrent.futures"): pass
    tempfile.tempdir = "/tmp"
    tempfile._Random = lambda: _random.Random(cur().rng.getrandbits(64) if cur() else None)
    _random._urandom = os.urandom
    uuid._generate_time_safe = uuid._UuidCreate = None
    uuid._node = 0x0242AC110002
    _real["Popen"] = subprocess.Popen
    class PopenMeta(type): pass
    subprocess.Popen = Popen
    os.system = lambda cmd: (subprocess.run(cmd, shell=True).returncode << 8) if cur() else _real_system(cmd)
    def no_threads(p, *a, **k): raise Harness("threads inside a script are not modelled")
    for mod, names in ((_thread, ("start_new_thread", "start_joinable_thread")), (threading, ("_start_new_thread", "_start_joinable_thread"))):
        for name in names:
            if hasattr(mod, name): _patch(mod, name, no_threads)
    import numpy_stub
    numpy_stub.install()

_real_system = os.system

# ------------------------------------------------------------------------------------------------ children
class Popen:
    """subprocess.Popen with the parts of its behaviour the scripts can see."""
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        import subprocess as sp
        p = cur()
        if p is None: raise Harness("Popen outside of a simulated process")
        self.p, self.args, self.returncode = p, args, None
        self.text = bool(text or universal_newlines or encoding or errors)
        self.encoding, self.errors = encoding or "utf-8", errors or "strict"
        p.nfork += 1
        act = p.step("spawn", args if isinstance(args, str) else " ".join(os.fspath(x) if not isinstance(x, bytes) else os.fsdecode(x) for x in args))
        if act: raise oserr(getattr(errno, act))
        d = p.path(cwd) if cwd is not None else p.cwd
        self.child = p.w.start(p, args, shell, d)
        kill_at = p.w.fault.get((p.idx, "child", p.nfork))
        if kill_at is not None:
            t = p.w.now + int(kill_at) * MS
            if self.child.end is None or self.child.end > t:
                self.child.events = [e for e in self.child.events if e[0] <= t] + [(t, "exit", -9)]
                self.child.end = t
                p.w.hits.append((p.idx, "child", "kill"))
        self.child.plan = list(self.child.events)
        p.w.children.append(self.child)
        p.children.append(self.child)
        self.pid = 5000 + len(p.w.children)
        self.stdin = self.stdout = self.stderr = None
        if stdin == sp.PIPE: raise Harness("stdin=PIPE is not modelled")
        if stderr == sp.STDOUT: self.child.events = [(t, "out" if k == "err" else k, x) for t, k, x in self.child.events]
        self.want = {"out": stdout == sp.PIPE, "err": stderr == sp.PIPE}
        for which, s in (("out", stdout), ("err", stderr)):
            if s is None or s == sp.PIPE or s == sp.DEVNULL or s == sp.STDOUT: continue
            fd = s if isinstance(s, int) else s.fileno()
            if not isinstance(s, int): s.flush()
            r = p.fds.get(fd)
            if r is None: raise oserr(errno.EBADF)
            self.child.redirect[which] = r
        for which, s in (("out", stdout), ("err", stderr)):
            if s == sp.PIPE:
                f = io.BufferedReader(PipeRaw(p, self.child, which))
                if self.text: f = io.TextIOWrapper(f, self.encoding, self.errors)
                setattr(self, "std" + which, f)
    def __enter__(self): return self
    def __exit__(self, *a):
        self.wait()
    def poll(self):
        self.p.step("wait", "poll")
        if self.returncode is None: self.returncode = self.child.code
        return self.returncode
    def _until(self, timeout, output):
        import subprocess as sp
        p, c = self.p, self.child
        p.step("wait", "")
        start = p.w.now
        limit = None if timeout is None else start + max(0, int(timeout * SEC))
        while c.code is None:
            t = c.next_event()
            if limit is not None and t > limit:
                p.block(limit)
                if c.code is None and p.w.now >= limit:
                    p.step("wait", "timeout")
                    out = bytes(c.got["out"]) if self.want["out"] and output else None
                    err = bytes(c.got["err"]) if self.want["err"] and output else None
                    raise sp.TimeoutExpired(self.args, timeout, output=out or None, stderr=err or None)
            elif c.end is None and not c.events:
                if limit is None:
                    p.w.endless = True
                    p.die()
            else:
                p.block(t)
        p.step("wait", "end")
        self.returncode = c.code
    def wait(self, timeout=None):
        if self.returncode is None: self._until(timeout, False)
        return self.returncode
    def _text(self, b):
        if not self.text: return b
        return b.decode(self.encoding, self.errors).replace("\r\n", "\n").replace("\r", "\n")
    def communicate(self, input=None, timeout=None):
        self._until(timeout, True)
        o = self._text(bytes(self.child.got["out"])) if self.want["out"] else None
        e = self._text(bytes(self.child.got["err"])) if self.want["err"] else None
        return o, e
    def send_signal(self, sig):
        self.p.step("wait", "kill")
        self.child.kill(int(sig))
    def kill(self): self.send_signal(9)
    def terminate(self): self.send_signal(15)

def _start(w, p, args, shell, cwd):
    """Resolve a command and ask the stub for its timeline."""
    import shlex
    t = w.now + 200_000
    def fail(code, msg): return Child(p, None, [], [(t, "err", msg.encode()), (t, "exit", code)], w.now)
    if shell:
        cmd = args if isinstance(args, str) else os.fspath(args[0])
        try:
            lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
            lex.whitespace_split = True
            lex.commenters = ""
            argv = list(lex)
        except ValueError:
            return fail(2, "sh: Syntax error: Unterminated quoted string\n")
        if argv and argv[0] == "exec": argv = argv[1:]
        if any(x and all(c in "();<>|&" for c in x) for x in argv):
            if any(x in ("(", ")", "()") for x in argv): return fail(2, "sh: Syntax error\n")
            w.unmodelled = "shell: " + cmd
            return fail(2, "")
        if not argv: return fail(0, "")
    else:
        argv = [args] if isinstance(args, (str, bytes)) or hasattr(args, "__fspath__") else list(args)
        argv = [os.fsdecode(os.fspath(x)) for x in argv]
    prog = argv[0]
    if "/" in prog:
        q = w.norm(prog, cwd)
        n = w.nodes.get(q)
        ok = n is not None and n.kind == "f" and n.exe
        name = os.path.basename(q)
    else:
        ok, name = prog in w.programs and prog in ("rm", "timeout", "mkdir"), prog
    if not ok:
        if shell: return fail(127, f"sh: 1: {prog}: not found\n")
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), prog)
    f = w.programs.get(name)
    if f is None: raise Harness("no stub for " + name)
    c = Child(p, name, argv, [], w.now)
    call = {"child": c, "p": p.idx, "prog": name, "path": argv[0], "argv": argv[1:], "t": w.now, "cwd": cwd}
    w.calls.append(call)
    c.events = sorted(((w.now + int(d * MS), k, x) for d, k, x in f(w, p, argv, cwd, call, c)), key=lambda e: e[0])
    c.end = next((e[0] for e in c.events if e[1] == "exit"), None)
    return c
World.start = _start
