"""C11: deleting files by extension removes those files only, and fails loudly."""
import copy
import errno
import os
import random

from .. import engine, fs, sched
from .. import world as W

ID = "C11"
LEVEL = "exploration"
COUNT = {"quick": 24000, "thorough": 400000}
RULE = ("a run is a seeded folder tree (matching and nearly matching names, hidden files, folders and links that carry the "
        "extension, links to files and folders inside and outside, dangling links) and a seeded sequence of calls on it, "
        "recursive or not, with listings in seeded order, removals and listings that fail at seeded operations, other "
        "processes that create and delete files between seeded operations, interruptions at seeded lines, and a last "
        "undisturbed call; the tree after every call is held against the one before; non-trivial when something had to be "
        "removed and a fault, an interruption or another process struck, or something that must stay carried the extension; "
        "distinct by tree, calls and faults fired")
MEASURE = "kinds of entries, arguments, and (operation, fault) sequence"
REAL = ["general.py (delete_files_with_extension)", "os, os.path, os.walk and the kernel's file system (in a scratch folder)"]
STUB = ["order of listings", "failing operations (raised at the interpreter's audit events)",
        "other processes (simulated at operation boundaries)", "stdout"]
ASSUMES = ["other processes act at the boundaries of file operations and do not replace folders by links",
           "runs as root: permission failures are injected, not natural"]

ERR = {"EACCES": errno.EACCES, "EPERM": errno.EPERM, "EBUSY": errno.EBUSY, "EIO": errno.EIO, "EROFS": errno.EROFS,
       "ENOMEM": errno.ENOMEM, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE}
EXTS = [".[1]", ".c?", ".*", ".p+", ".a|b", ".$", ".pdf", ".pdf", ".txt", ".png", ".tar.gz", ".c", "pdf", ".PDF", "~", ".p f", ".é"]


def lists(case):
    return [["calls"], ["tree"]] + [["calls", i, "faults"] for i in range(len(case["calls"]))] + \
        [["calls", i, "others"] for i in range(len(case["calls"]))]


def gen_name(rng, ext):
    stem = rng.choice(["a", "b", "c", "data", "x.y", ".h", "ü", "a b", "-r", "*", "[a]", "..z", ext.strip(".") or "q"])
    x = rng.random()
    if x < 0.45:
        return stem + ext
    if x < 0.53:
        return stem + ext + rng.choice([".bak", "~~", "1", " ", ".old", "x"])
    if x < 0.6:
        return stem + ext.swapcase()
    if x < 0.66:
        return ext
    if x < 0.68:        # would match if the extension were taken for a pattern
        for a, b in (("[", ""), ("]", ""), ("?", "x"), ("*", "zz"), ("+", ""), ("|b", ""), ("$", "")):
            ext = ext.replace(a, b)
        return stem + ext
    if x < 0.72:
        return stem + ext[:-1]
    if x < 0.78:
        return stem + ext.lstrip(".")
    if x < 0.84:
        return stem + ext.replace(".", "_")
    return stem + rng.choice([".dat", ".log", "", ".py", ".pdfx"])


def gen(rng, tier):
    ext = rng.choice(EXTS)
    dirs = [""]
    tree = []
    used = set()
    for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 9])):
        p = os.path.join(rng.choice(dirs) if rng.random() < 0.8 else dirs[-1],
                         rng.choice(["d", "e", "f", "g" + ext, ".h", "d" + ext, "k", "k", "long" * rng.choice([5, 20, 50])]))
        if p not in used and p.count("/") < 9:
            used.add(p)
            dirs.append(p)
            tree.append([p, "dir"])
    for _ in range(rng.randint(0, 14)):
        p = os.path.join(rng.choice(dirs), gen_name(rng, ext))
        if p in used or p in ("", ".", "..") or os.path.basename(p) in (".", "..", ""):
            continue
        used.add(p)
        x = rng.random()
        if x < 0.72:
            tree.append([p, "file", rng.choice(["", "x", "data"])])
        elif x < 0.8:
            tree.append([p, "link", rng.choice(["@out/keep" + ext, "@out/other"])])
        elif x < 0.88:
            tree.append([p, "link", rng.choice(["@out/sub", "@out", "@in"] + ["@in/" + d for d in dirs])])
        elif x < 0.93:
            tree.append([p, "link", "@out/none" + ext])
        elif x < 0.96:
            tree.append([p, "fifo"])
        else:
            # never to itself: whether such an entry counts as a directory, DirEntry.is_dir and isdir answer differently
            tree.append([p, "link", "@in/" + rng.choice([q[0] for q in tree] or ["none"])])
    calls = []
    deep = rng.random() < 0.5
    for i in range(rng.choice([1, 1, 2, 3])):
        c = {"deep": deep if rng.random() < 0.8 else not deep, "how": rng.choice(["abs", "abs", "rel", "slash", "dot", "link", "kw"]),
             "faults": [], "others": [], "cut": None, "order": rng.getrandbits(16)}
        if rng.random() < 0.1:
            c["sub"] = rng.choice(dirs)
        elif rng.random() < 0.05:
            c["sub"] = rng.choice(["missing", "missing" + ext] + [q[0] for q in tree])
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            c["faults"].append([rng.choice(["remove", "remove", "list", "entry"]), int(2 ** rng.uniform(0, 3.4)),
                                rng.choice(sorted(ERR) + ["KeyboardInterrupt", "MemoryError"])])
        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
            k = rng.choice(["create", "create", "delete", "delete", "mkdir", "rmtree"])
            p = os.path.join(rng.choice(dirs), gen_name(rng, ext))
            if k in ("delete", "rmtree") and tree:
                p = rng.choice(tree)[0]
            if os.path.basename(p) in (".", "..", ""):
                continue
            c["others"].append([rng.randint(1, 12), k, p])
        if rng.random() < 0.15:
            c["cut"] = [int(2 ** rng.uniform(0, 6)), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        calls.append(c)
    calls.append({"deep": deep, "how": "abs", "faults": [], "others": [], "cut": None, "order": rng.getrandbits(16)})
    return {"ext": ext, "tree": tree, "calls": calls}


def build(root, case):
    inn, out = os.path.join(root, "in"), os.path.join(root, "out")
    os.makedirs(os.path.join(out, "sub", "deeper"))
    os.mkdir(inn)
    ext = case["ext"]
    for p in ("keep" + ext, "other", "sub/s" + ext, "sub/deeper/t" + ext, "sub/plain"):
        with open(os.path.join(out, p), "w") as f:
            f.write(p)
    os.symlink(inn, os.path.join(root, "lnk"))
    with open(os.path.join(root, "beside" + ext), "w") as f:
        f.write("beside")
    for e in case["tree"]:
        p = os.path.join(inn, e[0])
        if os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)):
            continue
        if e[1] == "dir":
            os.mkdir(p)
        elif e[1] == "file":
            with open(p, "w") as f:
                f.write(e[2])
        elif e[1] == "fifo":
            os.mkfifo(p)
        else:
            t = e[2].replace("@out", out).replace("@in", inn).rstrip("/")
            os.symlink(t, p)
    return inn, out


def other(inn, k, p, ext):
    """One act of a simulated other process, inside the folder; it never follows links."""
    q = os.path.join(inn, p)

    def act():
        try:
            if os.path.realpath(os.path.dirname(q)) != os.path.normpath(os.path.dirname(q)):
                return False
            if k == "create":
                with open(q, "x") as f:
                    f.write("late")
            elif k == "mkdir":
                os.mkdir(q)
            elif k == "delete":
                if os.path.isdir(q) and not os.path.islink(q):
                    return False
                os.unlink(q)
            else:
                if os.path.islink(q) or not os.path.isdir(q):
                    return False
                import shutil
                shutil.rmtree(q)
            touched.append((k, os.path.relpath(q, inn)))
            return True
        except OSError:
            return False
    touched = act.touched = []
    return act


def make_exc(name):
    if name in ERR:
        return lambda p: OSError(ERR[name], os.strerror(ERR[name]), p)
    return lambda p: engine.EXC[name]()


def run(case, st):
    root = fs.scratch()
    cwd = os.getcwd()
    try:
        return _run(case, st, root)
    finally:
        os.chdir(cwd)
        fs.drop(root)


def _run(case, st, root):
    ext = case["ext"]
    inn, out = build(root, case)
    seq = []
    busy = False
    must = False
    for ci, call in enumerate(case["calls"]):
        target = inn
        sub = call.get("sub")
        if sub:
            target = os.path.join(inn, sub)
        before = fs.tree(root)
        rel0 = os.path.relpath(os.path.realpath(target), root)
        os.chdir(root)
        how = call["how"]
        if how == "rel":
            folder = os.path.relpath(target, root)
        elif how == "slash":
            folder = target + "/"
        elif how == "dot" and os.path.isdir(target):
            os.chdir(target)
            folder = "."
        elif how == "link" and not sub:
            folder = os.path.join(root, "lnk")
        else:
            folder = target
        acts = [(n, other(inn, k, p, ext)) for n, k, p in call["others"]]
        exc, res, sim = None, None, None
        with W.quiet(), W.bounded():
            U = W.Universe()
            W.activate(U)
            f = U.general.delete_files_with_extension
            if how == "kw":
                fn = lambda: f(folder, extensionWithDot=ext, deleteInSubDirectories=bool(call["deep"]))
            elif call["deep"]:
                fn = lambda: f(folder, ext, True)
            else:
                fn = lambda: f(folder, ext)
            g = fs.Guard(root, call["order"], [[k, n, make_exc(e)] for k, n, e in call["faults"]], acts)
            with g:
                if call["cut"]:
                    sim = sched.trace_single(fn, {call["cut"][0]: engine.EXC[call["cut"][1]]})
                    if sim.tasks[0].result[0] == "exc":
                        exc = sim.tasks[0].result[1]
                else:
                    try:
                        fn()
                    except BaseException as e:
                        exc = e
        os.chdir(root)
        st.steps += g.n
        touched = [t for _, a in acts for t in a.touched]
        st.faults["other process acted"] += len(touched)
        for kind, p, e, _ in g.fired:
            name = errno.errorcode.get(getattr(e, "errno", None), type(e).__name__)
            st.faults["%s failed: %s" % (kind, name)] += 1
        cut = sim.tasks[0].fired if sim else []
        st.faults["interrupted"] += len(cut)
        after = fs.tree(root)
        st.note((type(exc).__name__, sorted(after)))
        seq.append((call["deep"], tuple(k for k, *_ in g.fired), bool(cut), len(touched), type(exc).__name__))
        if g.fired or cut or touched:
            busy = True
        # -- what happened -----------------------------------------------------------------------------------
        if g.escaped:
            return ("outside", "call %d tried %s" % (ci, g.escaped[0].replace(root, "")))
        if isinstance(exc, W.SimLimit):
            return ("hang", "call %d does not end" % ci)
        late_made = {os.path.join("in", q) for k, q in touched if k in ("create", "mkdir")}
        late_gone = {os.path.join("in", q) for k, q in touched if k in ("delete", "rmtree")}
        rel1 = os.path.relpath(os.path.realpath(target), root)
        rels = {rel0, rel1}     # the folder named may itself be a link that another process removed
        for p, what in before.items():
            if p in after and (after[p] == what or p in late_made):
                continue
            if p in late_gone or any(p.startswith(x + os.sep) for x in late_gone):
                continue
            if not any(may_go(p, what, rel, ext, call["deep"], root) for rel in rels):
                return ("wrong", "call %d (%s, %s): %s %s was %s" %
                        (ci, ext, "with subfolders" if call["deep"] else "flat", what[0], p, "removed" if p not in after else "changed"))
        for p in after:
            if p not in before and p not in late_made:
                return ("wrong", "call %d made %s" % (ci, p))
        # an entry the others made may be gone only if it could be removed (or they removed it again)
        for p in late_made - late_gone:
            kind = next(k for k, q in touched if os.path.join("in", q) == p)
            if p not in after and not any(p.startswith(x + os.sep) for x in late_gone) and p not in late_gone and \
                    not any(may_go(p, ("dir",) if kind == "mkdir" else ("file",), rel, ext, call["deep"], root) for rel in rels):
                return ("wrong", "call %d removed %s, which another process had just made" % (ci, p))
        left = [p for p, what in before.items() if rel0 == rel1 and must_go(p, what, rel0, ext, call["deep"]) and p in after and p not in late_made]
        n_must = sum(1 for p, what in before.items() if rel0 == rel1 and must_go(p, what, rel0, ext, call["deep"]))
        must = must or n_must > 0
        st.c["files that had to go"] += n_must
        if exc is None:
            if left:
                return ("left", "call %d returned normally and left %s" % (ci, left[:3]))
            for kind, p, e, at in g.fired:
                if kind == "remove" and not os.path.lexists(p):
                    continue
                if kind in ("list", "entry", "remove") and any(k in ("list", "remove") and same(q, p) for k, q in g.events[at:]):
                    continue        # it was tried again
                return ("silent", "call %d: %s of %s failed (%r) and the caller was not told" % (ci, kind, p.replace(root, ""), e))
            if cut:
                return ("silent", "call %d was interrupted and the caller was not told" % ci)
            if sub and not os.path.isdir(target) and not touched:
                return ("silent", "call %d on %s, which is no folder, returned normally" % (ci, sub))
        else:
            mine = [x[2] for x in g.fired] + [x[1] for x in cut]
            if not any(exc is m or exc.__cause__ is m or exc.__context__ is m for m in mine):
                natural = isinstance(exc, OSError) and (touched or (sub and not os.path.isdir(target)))
                if not natural:
                    return ("raise", "call %d raised %r" % (ci, exc))
    st.c["calls"] += len(case["calls"])
    carry = any(e[0].endswith(ext) and e[1] != "file" or not e[0].endswith(ext) and ext in e[0] for e in case["tree"])
    sig = (tuple(sorted((e[1], e[0].endswith(ext)) for e in case["tree"])), tuple(seq))
    st.shapes.add(hash(sig))
    if must and (busy or carry):
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("%s in %s: calls %s" % (ext, [e[0] + {"dir": "/", "link": "@", "fifo": "|"}.get(e[1], "") for e in case["tree"]][:8],
                                                     [(s[0], s[1], s[4]) for s in seq]))
    return None


def same(a, b):
    return os.path.normpath(a) == os.path.normpath(b)


def in_scope(p, rel, deep):
    d = os.path.dirname(p)
    return d == rel or (deep and (d + os.sep).startswith(rel + os.sep))


def may_go(p, what, rel, ext, deep, root):
    if what[0] == "dir" or not os.path.basename(p).endswith(ext) or not in_scope(p, rel, deep):
        return False
    return True


def must_go(p, what, rel, ext, deep):
    return what[0] == "file" and os.path.basename(p).endswith(ext) and in_scope(p, rel, deep)
