"""File-system seam: a real scratch folder under a containment hook, with faults and other processes simulated.

Every file operation of the interpreter passes an audit event before it happens.  While a Guard is active the hook
  * refuses (and records) any changing operation outside the scratch folder,
  * counts the operations, and at seeded counts raises an error in place of one, or lets a simulated other process act.
Listings come in a seeded order; a listing may fail after some entries.
"""
import os
import random
import shutil
import stat
import sys
import tempfile

_guard = None
_installed = False

_real = {"listdir": os.listdir, "scandir": os.scandir}
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Contained(BaseException):
    """The code under test tried to change something outside the scratch folder."""


class EscapeRecorded(Exception):
    pass


def _hook(event, args):
    g = _guard
    if g is None or g.busy or os.getpid() != g.pid:
        return
    f = _EVENTS.get(event)
    if f is not None:
        g.busy = True
        try:
            f(g, event, args)
        finally:
            g.busy = False


def _path(p, dir_fd=-1):
    if isinstance(p, int):
        return os.readlink("/proc/self/fd/%d" % p)
    p = os.fsdecode(p)
    if not os.path.isabs(p):
        base = os.getcwd() if dir_fd in (-1, None) or not isinstance(dir_fd, int) or dir_fd < 0 else \
            os.readlink("/proc/self/fd/%d" % dir_fd)
        p = os.path.join(base, p)
    # the entry itself is not followed, the folders above it are
    head, tail = os.path.split(p.rstrip(os.sep) or os.sep)
    if tail in ("..", "."):
        return os.path.realpath(p)
    return os.path.join(os.path.realpath(head), tail)


def _one(g, event, args):
    p = _path(args[0], args[-1] if len(args) > 1 and event in ("os.remove", "os.rmdir", "os.mkdir") else -1)
    g.changing(event, p)


def _two(g, event, args):
    for i in (0, 1):
        if event in ("os.symlink",) and i == 0:
            continue
        g.changing(event, _path(args[i], args[2 + i] if len(args) > 2 + i and isinstance(args[2 + i], int) else -1))


def _list(g, event, args):
    p = args[0]
    p = os.getcwd() if p is None else (_path(p) if isinstance(p, int) else os.path.join(os.getcwd(), os.fsdecode(p)))
    g.listing(event, p)


def _open(g, event, args):
    path, mode, flags = args
    if isinstance(path, int) or path is None:
        return
    w = isinstance(flags, int) and flags & _WRITE_FLAGS or isinstance(mode, str) and any(c in mode for c in "wax+")
    p = os.fsdecode(path)
    if w:
        g.changing("open", os.path.realpath(p))
    else:
        g.reading("open", os.path.realpath(p))


def _never(g, event, args):
    g.escaped.append("%s %r" % (event, args[:2]))
    raise Contained(g.escaped[-1])


_EVENTS = {"os.remove": _one, "os.rmdir": _one, "os.mkdir": _one, "os.truncate": _one, "os.chmod": _one, "os.chown": _one,
           "os.utime": _one, "os.rename": _two, "os.link": _two, "os.symlink": _two,
           "os.listdir": _list, "os.scandir": _list, "open": _open,
           "os.system": _never, "os.exec": _never, "os.posix_spawn": _never, "subprocess.Popen": _never, "os.fork": _never,
           "os.forkpty": _never, "os.kill": _never, "os.setxattr": _one, "os.removexattr": _one}


class Guard:
    """What may be changed, what fails, and who else is at work, during one call of the code under test."""

    def __init__(self, root, seed=0, faults=(), others=(), allow=()):
        self.root = os.path.realpath(root)
        self.allow = [os.path.realpath(a) for a in allow]
        self.rng = random.Random(seed)
        self.faults = {}
        for f in faults:                    # [kind, k, make]: the k-th operation of the kind fails
            self.faults.setdefault(f[0], {}).setdefault(f[1], f[2])
        self.others = sorted(others, key=lambda o: o[0])    # [n, fn]: before the n-th operation another process acts
        self.count = {}
        self.n = 0
        self.events, self.escaped, self.fired, self.acted = [], [], [], 0
        self.busy = False
        self.pid = os.getpid()

    # -- events -----------------------------------------------------------------------------------------------
    def _step(self, kind, p):
        self.n += 1
        while self.others and self.others[0][0] <= self.n:
            fn = self.others.pop(0)[1]
            self.acted += bool(fn())
        c = self.count[kind] = self.count.get(kind, 0) + 1
        make = self.faults.get(kind, {}).pop(c, None)
        if make is not None:
            e = make(p)
            self.fired.append([kind, p, e, len(self.events)])
            raise e
        self.events.append((kind, p))

    def inside(self, p):
        return p == self.root or p.startswith(self.root + os.sep)

    def changing(self, event, p):
        if not self.inside(p):
            if any(p == a or p.startswith(a + os.sep) for a in self.allow):
                return
            if event == "open" and p in ("/dev/null",):
                return
            self.escaped.append("%s %s" % (event, p))
            raise Contained(self.escaped[-1])
        self._step({"os.remove": "remove", "open": "write"}.get(event, event), p)

    def listing(self, event, p):
        self._step("list", p)

    def reading(self, event, p):
        if self.inside(p):
            self._step("read", p)

    # -- listings in a seeded order ---------------------------------------------------------------------------
    def listdir(self, path="."):
        if self.busy:               # another process is at work
            return _real["listdir"](path)
        names = _real["listdir"](path)
        names.sort(key=os.fsencode)
        self.rng.shuffle(names)
        return names

    def scandir(self, path="."):
        if self.busy:
            return _real["scandir"](path)
        return _Scan(self, _real["scandir"](path), path)

    def __enter__(self):
        global _guard, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        os.listdir, os.scandir = self.listdir, self.scandir
        _guard = self
        return self

    def __exit__(self, *a):
        global _guard
        _guard = None
        os.listdir, os.scandir = _real["listdir"], _real["scandir"]


class _Scan:
    def __init__(self, g, it, path):
        with it:
            self.items = sorted(it, key=lambda e: os.fsencode(e.name))
        g.rng.shuffle(self.items)
        self.g, self.path = g, path
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        g = self.g
        c = g.count["entry"] = g.count.get("entry", 0) + 1
        make = g.faults.get("entry", {}).pop(c, None)
        if make is not None:
            e = make(self.path)
            g.fired.append(["entry", os.fsdecode(self.path) if not isinstance(self.path, int) else "", e, len(g.events)])
            raise e
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]

    def close(self):
        self.i = len(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def scratch():
    return os.path.realpath(tempfile.mkdtemp(prefix="optics3d-sim-"))


def drop(root):
    """Remove a scratch folder made here."""
    assert os.path.basename(root).startswith("optics3d-sim-") and os.path.dirname(root) == os.path.realpath(tempfile.gettempdir())
    shutil.rmtree(root, ignore_errors=True)


def tree(root):
    """relative path -> what is there"""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir",)
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read())
            else:
                out[rel] = ("special",)
    return out
