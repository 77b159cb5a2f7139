"""C12: the grating sketch batch writes every diagram or fails loudly."""
import builtins
import errno
import io
import math
import os
import random

from .. import engine, fs, sched, universe
from .. import world as W

ID = "C12"
LEVEL = "exploration"
COUNT = {"quick": 1100, "thorough": 24000}
RULE = ("a run is a seeded catalogue (names with blanks, dots, accents and catalogue marks, sizes given as one number or two, "
        "any line ending, stray marker bytes anywhere) and a seeded sequence of batch runs over it: bytes arrive in seeded "
        "pieces, opens, reads and writes fail or fall short at seeded operations, the disk fills up at a seeded byte, the "
        "process is killed at a seeded write or interrupted at a seeded line, folders are missing or blocked, stale files "
        "lie in the way; the last run is undisturbed; after each run every file is held against the diagram of the entry "
        "sketched alone; non-trivial when a fault fired or the catalogue held at least two entries; distinct by "
        "catalogue shape and (fault, outcome) sequence")
MEASURE = "catalogue shape and (operation, fault, outcome) sequence"
REAL = ["script_sketchconcavegratings.py", "general.py (wavelength_to_rgb)", "matplotlib (pdf output)",
        "the kernel's file system (in a scratch folder)"]
STUB = ["the lowest read and write calls of opened files (pieces, failures, kill)", "clock (SOURCE_DATE_EPOCH)", "stdout"]
ASSUMES = ["a killed process loses what it had buffered and keeps what it had written; the machine itself does not crash",
           "names are unique and usable as file names"]

NEED = ["r (mm)", "alpha (deg)", "r'1 (mm)", "beta1 (deg)", "r'2 (mm)", "beta2 (deg)"]
LABELS = ["catalog", "G (grooves/mm)", "m lambda1", "m lambda2", "RLD (nm/mm)", "r (mm)", "alpha (deg)", "r'1 (mm)",
          "beta1 (deg)", "r'2 (mm)", "beta2 (deg)", "f/#", "ruled", "substrate", "M"]
FOLDER = "grating diagrams"
CATALOGUE = "dat_concavegratings.txt"
SCRIPT = os.path.join(os.path.realpath(universe.REPO), "script_sketchconcavegratings.py")
ERR = {n: getattr(errno, n) for n in ("EACCES", "EIO", "EMFILE", "ENOSPC", "EROFS", "EDQUOT", "ENOMEM", "EFBIG")}

simplify = lambda case: iter(())


def lists(case):
    return [["attempts"], ["rows"], ["pre"], ["marks"]] + [["attempts", i, "faults"] for i in range(len(case["attempts"]))]


# -- catalogues ---------------------------------------------------------------------------------------------------
def gen_row(rng):
    stem = rng.choice(["52056BK-*-028C", "52A15BK-*-224C", "1", "11", "1.0", "1.pdf", "a b", ".h", "é-7", "x\xa0", "52056BK-*-028",
                       "b,c", "#3", "(4)", "%d", "{k}", "~5", "A", "a"])
    name = stem if rng.random() < 0.5 else stem + "%d" % rng.randrange(1000)
    def num(lo, hi):
        v = rng.uniform(lo, hi)
        return rng.choice(["%d", "%.1f", "%.2f", "%g"]) % v
    r = num(20, 600)
    ruled = num(10, 95)
    sub = num(10, 100)
    if rng.random() < 0.35:
        ruled = "%s%sx%s%s" % (ruled, rng.choice([" ", ""]), rng.choice([" ", ""]), num(10, 40))
    if rng.random() < 0.35:
        sub = "%s x %s" % (sub, num(10, 40))
    return [name, num(50, 2500), num(190, 700), num(300, 1100), num(1, 90), r, num(-35, 70), num(20, 600), num(-50, 25),
            num(20, 600), num(-60, 50), num(1, 11), ruled, sub, rng.choice(["M-J", "J", "", "M-K"])]


_pool_rng = random.Random(12)
POOL = [gen_row(_pool_rng) for _ in range(60)]


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5] + ([8, 14] if tier == "thorough" else []))
    rows, used = [], set()
    while len(rows) < n:
        row = list(rng.choice(POOL)) if rng.random() < 0.8 else gen_row(rng)
        if row[0] in used:
            continue
        used.add(row[0])
        rows.append(row)
    total = 2
    marks = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        marks.append([rng.randrange(-1, max(1, n)), rng.randrange(15), rng.randrange(8)])
    pre = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        nm = rng.choice([r[0] + ".pdf" for r in rows] + ["other.pdf", "notes.txt", "old.pdf.part"])
        pre.append([nm, rng.choice(["", "stale", "%PDF-1.4 torn", "x" * 40000])])
    attempts = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        a = {"seed": rng.getrandbits(20), "faults": [], "room": None, "cut": None, "folder": "there", "catalogue": "there"}
        x = rng.random()
        if x < 0.5:
            kind = rng.choice(["read", "write", "write", "open-w", "open-r", "close", "close-r"])
            hi = {"read": 40, "write": 3 * n + 1, "open-w": n + 1, "open-r": 1, "close": n + 1, "close-r": 1}[kind]
            k = rng.randint(1, max(1, hi))
            a["faults"].append([kind, k, rng.choice(["EIO", "kill", "KeyboardInterrupt", "MemoryError"] + sorted(ERR))])
        elif x < 0.65:
            a["room"] = int(rng.uniform(0, 14000 * n + 100))
        elif x < 0.86:
            a["cut"] = [int(rng.uniform(1, 100 * n + 20)) if rng.random() < 0.7 else int(2 ** rng.uniform(0, 10.5)), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        elif x < 0.92:
            a["folder"] = rng.choice(["missing", "file"] + (["taken"] if rows else []))
        elif x < 0.96:
            a["catalogue"] = rng.choice(["missing", "folder"])
        attempts.append(a)
    bad = None
    if rows and rng.random() < 0.06:
        bad = [rng.randrange(len(rows)), rng.choice(["short", "text"]), rng.choice(NEED[:1] + NEED)]
    return {"rows": rows, "marks": marks, "pre": pre, "attempts": attempts, "bad": bad, "eol": rng.choice(["\r", "\n", "\r\n"]),
            "trail": rng.random() < 0.5, "last": rng.getrandbits(20)}


def text_of(case):
    rows = [list(LABELS)] + [list(r) for r in case["rows"]]
    if case.get("bad") and case["bad"][0] < len(case["rows"]):
        i, how, field = case["bad"]
        j = LABELS.index(field)
        rows[i + 1] = rows[i + 1][:j] if how == "short" else rows[i + 1][:j] + ["n/a"] + rows[i + 1][j + 1:]
    for i, j, k in case["marks"]:
        if i + 1 < len(rows) and j < len(rows[i + 1]):
            c = rows[i + 1][j]
            rows[i + 1][j] = c[:k] + "Ê" + c[k:]
    s = case["eol"].join("\t".join(r) for r in rows)
    return (s + (case["eol"] if case["trail"] else "")).encode("latin-1")


# -- the simulated lowest layer of files -----------------------------------------------------------------------------
class Killed(BaseException):
    """The process is gone."""


class Disk:
    def __init__(self, root, seed, faults, room):
        self.root, self.rng = root, random.Random(seed)
        self.faults = {}
        for kind, k, name in faults:
            self.faults.setdefault((kind, k), name)
        self.room = room
        self.count = {}
        self.fired = []             # (operation, fault, exception)
        self.dead = False
        self.over = False
        self.writing = []           # entries in the order they were opened for writing
        self.open_now = []
        self.piece = self.rng.choice([1, 3, 17, 100, 1 << 16])

    def inside(self, p):
        try:
            p = os.path.realpath(os.fsdecode(p))
        except TypeError:
            return None
        return os.path.relpath(p, self.root) if p.startswith(self.root + os.sep) else None

    def step(self, kind, p):
        if self.over:
            raise OSError(errno.EBADF, "the simulated process has ended")
        if self.dead:
            raise Killed()
        c = self.count[kind] = self.count.get(kind, 0) + 1
        name = self.faults.pop((kind, c), None)
        if name is not None:
            if name == "kill":
                self.dead = True
                e = Killed()
            else:
                e = OSError(ERR[name], os.strerror(ERR[name]), p) if name in ERR else engine.EXC[name]()
            self.fired.append((kind, name, e))
            raise e

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = None if isinstance(file, int) or opener is not None else self.inside(file)
        if rel is None:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        w = any(c in mode for c in "wax+")
        self.step("open-w" if w else "open-r", os.fsdecode(file))
        raw = _Raw(self, file, mode.replace("b", "").replace("t", "").replace("U", ""), rel)
        if w:
            if rel in self.writing:
                self.writing.remove(rel)
            self.writing.append(rel)
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        b = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size) if w else io.BufferedReader(raw, size)
        if "b" in mode:
            return b
        t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t


class _Raw(io.FileIO):
    def __init__(self, disk, file, mode, rel):
        super().__init__(file, mode)
        self.disk, self.rel = disk, rel

    def readinto(self, b):
        d = self.disk
        d.step("read", self.rel)
        n = min(len(b), d.rng.randint(1, d.piece))
        v = memoryview(b)[:n]
        return super().readinto(v)

    def readall(self):
        out = []
        while True:
            b = bytearray(4096)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def write(self, b):
        d = self.disk
        d.step("write", self.rel)
        v = memoryview(b).cast("B")
        n = len(v)
        if n > 1 and d.rng.random() < 0.3:
            n = d.rng.randint(1, n)                     # a short write
            d.count["short"] = d.count.get("short", 0) + 1
        if d.room is not None:
            if d.room <= 0 and n:
                e = OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.rel)
                d.fired.append(("write", "full disk", e))
                raise e
            n = min(n, d.room)
        n = super().write(v[:n])
        if d.room is not None:
            d.room -= n
        return n

    def close(self):
        if self.closed:
            return
        d = self.disk
        try:
            if not d.over:
                d.step("close" if self.writable() else "close-r", self.rel)
        finally:
            super().close()


_open = open


class Figures:
    """Notes what is on a figure when it is saved."""

    def __init__(self):
        self.saved = []

    def __enter__(self):
        from matplotlib.figure import Figure
        self.old = Figure.savefig
        old, saved = self.old, self.saved

        def savefig(fig, *a, **k):
            pts = []
            title = []
            for ax in fig.axes:
                title.append(ax.get_title())
                for ln in ax.lines:
                    pts += [(float(x), float(y)) for x, y in ln.get_xydata()]
                for c in ax.collections:
                    pts += [(float(x), float(y)) for x, y in c.get_offsets()]
            out = old(fig, *a, **k)
            saved.append((" ".join(title), pts))
            return out
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        from matplotlib.figure import Figure
        Figure.savefig = self.old


def batch(root, disk, cut=None, figs=None):
    """One run of the batch as a process of its own would run it; returns the exception that ends it."""
    import matplotlib
    import matplotlib.pyplot as plt
    exc = None
    sim = None
    env = dict(os.environ)
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    cwd = os.getcwd()
    os.chdir(root)
    plt.close("all")
    try:
        with W.quiet(), W.bounded(), matplotlib.rc_context(), (figs or Figures()):
            W.activate(W.Universe())
            code = universe.compiled(SCRIPT)
            ns = {"__name__": "__main__", "__file__": SCRIPT}
            g = fs.Guard(root, 0, allow=[os.path.expanduser("~/.cache/matplotlib"), matplotlib.get_cachedir()])
            builtins.open = io.open = disk.open
            try:
                with g:
                    if cut:
                        sim = sched.trace_single(lambda: exec(code, ns), {cut[0]: engine.EXC[cut[1]]})
                        if sim.tasks[0].result[0] == "exc":
                            exc = sim.tasks[0].result[1]
                    else:
                        try:
                            exec(code, ns)
                        except BaseException as e:
                            exc = e
            finally:
                builtins.open = io.open = _open
    finally:
        disk.over = True
        plt.close("all")
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
    return exc, (sim.tasks[0].fired if sim else []), g


# -- the diagram an entry has when it is sketched alone -----------------------------------------------------------------
_alone = {}


def alone(row):
    key = tuple(row)
    if key not in _alone:
        if len(_alone) > 400:
            _alone.clear()
        root = fs.scratch()
        try:
            os.mkdir(os.path.join(root, FOLDER))
            with _open(os.path.join(root, CATALOGUE), "wb") as f:
                f.write(("\n".join("\t".join(r) for r in (LABELS, row))).encode("latin-1"))
            disk = Disk(root, 0, [], None)
            disk.piece = 1 << 16
            disk.rng.random = lambda: 1.0
            figs = Figures()
            exc, _, g = batch(root, disk, None, figs)
            t = fs.tree(root)
            f = t.get(os.path.join(FOLDER, row[0] + ".pdf"))
            _alone[key] = (exc, f[1] if f and f[0] == "file" else None, figs.saved, g.escaped)
        finally:
            fs.drop(root)
    return _alone[key]


def expected_points(row):
    v = dict(zip(LABELS, row))
    f = lambda k: float(v[k].split("x")[0])
    at = lambda r, a: (f(r) * math.cos(math.radians(f(a))), f(r) * math.sin(math.radians(f(a))))
    h = f("ruled") / 2
    return [at("r (mm)", "alpha (deg)"), at("r'1 (mm)", "beta1 (deg)"), at("r'2 (mm)", "beta2 (deg)"), (0.0, h), (0.0, -h)]


def near(p, q):
    return abs(p[0] - q[0]) <= 1e-6 * (1 + abs(q[0])) and abs(p[1] - q[1]) <= 1e-6 * (1 + abs(q[1]))


def run(case, st):
    root = fs.scratch()
    try:
        return _run(case, st, root)
    finally:
        fs.drop(root)


def put(root, a, case):
    """Lay out what the batch finds; -> what to undo afterwards."""
    d = os.path.join(root, FOLDER)
    if a["catalogue"] == "there":
        with _open(os.path.join(root, CATALOGUE), "wb") as f:
            f.write(text_of(case))
    elif a["catalogue"] == "folder":
        os.mkdir(os.path.join(root, CATALOGUE))
    if a["folder"] == "missing":
        os.rename(d, d + ".away")
    elif a["folder"] == "file":
        os.rename(d, d + ".away")
        with _open(d, "w") as f:
            f.write("x")
    elif a["folder"] == "taken" and case["rows"]:
        p = os.path.join(d, case["rows"][-1][0] + ".pdf")
        if os.path.lexists(p):
            os.unlink(p)
        os.mkdir(p)


def restore(root, a, case):
    d = os.path.join(root, FOLDER)
    c = os.path.join(root, CATALOGUE)
    if os.path.isdir(c):
        os.rmdir(c)
    if os.path.isfile(c):
        os.unlink(c)
    if a["folder"] in ("missing", "file"):
        if os.path.isdir(d):
            return "the batch made the folder"
        if os.path.lexists(d):
            os.unlink(d)
        os.rename(d + ".away", d)
    elif a["folder"] == "taken" and case["rows"]:
        p = os.path.join(d, case["rows"][-1][0] + ".pdf")
        if os.path.isdir(p):
            os.rmdir(p)
    return None


def _run(case, st, root):
    rows = case["rows"]
    names = {os.path.join(FOLDER, r[0] + ".pdf"): r for r in rows}
    bad = case.get("bad") if case.get("bad") and case["bad"][0] < len(rows) else None
    badname = os.path.join(FOLDER, rows[bad[0]][0] + ".pdf") if bad else None
    want = {}
    for p, r in names.items():
        if p == badname:
            continue
        exc, pdf, saved, esc = alone(r)
        if esc:
            return ("outside", "sketching %r alone tried %s" % (r[0], esc[0]))
        if exc is not None:
            return ("raise", "sketching %r alone ends with %r" % (r[0], exc))
        if pdf is None or not pdf.startswith(b"%PDF-") or not pdf.rstrip().endswith(b"%%EOF"):
            return ("incomplete", "sketching %r alone leaves no complete diagram" % r[0])
        if len(saved) != 1 or r[0] not in saved[0][0]:
            return ("content", "the diagram of %r has the title %r" % (r[0], saved[0][0] if saved else None))
        exp = expected_points(r)
        for q in saved[0][1]:
            if not any(near(q, e) for e in exp):
                return ("content", "the diagram of %r shows %r, which is none of its five points %s" % (r[0], q, exp))
        for e in exp:
            if not any(near(q, e) for q in saved[0][1]):
                return ("content", "the diagram of %r does not show %r" % (r[0], e))
        want[p] = ("file", pdf)
    os.mkdir(os.path.join(root, FOLDER))
    for nm, content in case["pre"]:
        with _open(os.path.join(root, FOLDER, nm), "w") as f:
            f.write(content)
    seq = []
    last = {"seed": case["last"], "faults": [], "room": None, "cut": None, "folder": "there", "catalogue": "there"}
    fired_any = False
    for i, a in enumerate(case["attempts"] + [last]):
        put(root, a, case)
        before = fs.tree(root)
        disk = Disk(root, a["seed"], a["faults"], a["room"])
        exc, cut, g = batch(root, disk, a["cut"])
        after = fs.tree(root)
        st.steps += sum(disk.count.values())
        st.c["batches"] += 1
        st.faults["short write"] += disk.count.get("short", 0)
        st.faults["catalogue in pieces"] += disk.count.get("read", 0) > 3
        for kind, name, _ in disk.fired[:1]:
            st.faults["%s: %s" % (kind, name)] += 1
        st.faults["interrupted"] += len(cut)
        laid = [x for x in ("folder " + a["folder"], "catalogue " + a["catalogue"]) if not x.endswith("there")]
        for x in laid:
            st.faults[x] += 1
        struck = bool(disk.fired or cut or laid)
        fired_any = fired_any or struck
        st.note((type(exc).__name__, sorted((p, len(x[1]) if x[0] == "file" else 0) for p, x in after.items())))
        seq.append((tuple((k, n) for k, n, _ in disk.fired[:1]), bool(cut), tuple(laid), type(exc).__name__))
        what = "batch %d" % i
        if g.escaped:
            return ("outside", "%s tried %s" % (what, g.escaped[0].replace(root, "")))
        if isinstance(exc, W.SimLimit):
            return ("hang", "%s does not end" % what)
        done = {p for p in want if after.get(p) == want[p]}
        # what must not change
        for p, x in before.items():
            if p in names or after.get(p) == x:
                continue
            return ("damage", "%s changed or removed %s" % (what, p))
        busy = disk.writing[-1:]
        for p in want:
            if before.get(p) == want[p] and p not in done and p not in busy:
                return ("damage", "%s damaged the diagram %s, which was complete" % (what, p))
        for p in disk.writing[:-1]:
            if p in want and p not in done:
                return ("incomplete", "%s went on after %s, whose diagram is not complete" % (what, p))
        if exc is None:
            if bad:
                return ("silent", "%s ended normally although the entry %r has no usable %s" % (what, rows[bad[0]][0], bad[2]))
            for p in want:
                if p not in done:
                    kind = "silent" if struck else "incomplete"
                    return (kind, "%s ended normally but the diagram %s is %s%s" %
                            (what, p, "missing" if p not in after else "not the one it has alone",
                             (" (fault: %s)" % (disk.fired[:1] or cut or laid)) if struck else ""))
            for p in after:
                if p not in before and p not in want:
                    return ("extra", "%s also wrote %s" % (what, p))
            if cut or any(n in ("KeyboardInterrupt", "MemoryError", "kill") for _, n, _ in disk.fired):
                return ("silent", "%s was interrupted and ended normally" % what)
        else:
            mine = [e for _, _, e in disk.fired] + [x[1] for x in cut]
            if not (bad or laid or chained(exc, mine)):
                return ("raise", "%s ended with %r%s" % (what, exc, " although only %s failed" % disk.fired[0][0] if disk.fired else ""))
        r = restore(root, a, case)
        if r:
            return ("extra", what + ": " + r)
    shape = (len(rows), case["eol"], case["trail"], len(case["marks"]), len(case["pre"]), bool(bad), tuple("x" in r[12] for r in rows))
    sig = hash((shape, tuple(seq)))
    st.shapes.add(sig)
    st.c["diagrams written"] += len(want)
    if fired_any or len(rows) > 1:
        st.nontrivial.add(sig)
        if fired_any and len(st.samples) < 2:
            st.samples.append("%d entries %s, batches %s" % (len(rows), [r[0] for r in rows][:4], seq))
    return None


def chained(e, mine):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if any(x is m for m in mine):
            return True
        todo += [x.__cause__, x.__context__]
    return False
