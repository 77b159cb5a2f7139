"""Mutation campaign: small systematic changes to the code under test, each run against the tests and then the checks.
usage: mutate.py OUT.jsonl [FILE ...]     (in scratch copies under /tmp; nothing in /repo or /verif/seeded is touched)
Survivors show what the checks do not see; they are read by hand (many are equivalent)."""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["optics3d.py", "Shapes/shapes.py", "general_optics.py", "general.py", "script_sketchconcavegratings.py"]
ONLY = {"general.py": ("to_precision", "delete_files_with_extension", "set_axes_radius", "set_axes_equal"),
        "general_optics.py": ("unit_vector", "angle_between", "distance_between", "rotation_matrix_axis_angle", "rotation_matrix2",
                              "rotation_matrix4", "scaling_matrix4", "translation_matrix4", "rotation_matrix",
                              "pathpatch_2d_to_3d", "pathpatch_translate", "project_onto_plane", "BinaryTree",
                              "test_tree_intersect", "tree_crossings", "test_tree_point", "operCsgIndexUnion",
                              "operCsgIndexIntersect", "operCsgIndexDifference")}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
FLIP = {ast.Lt: ">", ast.LtE: ">", ast.Gt: "<", ast.GtE: "<"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


def walk(n):
    """Like ast.walk, without the bodies that only draw or print."""
    if isinstance(n, ast.FunctionDef) and n.name in ("draw", "__repr__"):
        return
    yield n
    for c in ast.iter_child_nodes(n):
        yield from walk(c)


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(n):
        # columns are utf-8 offsets
        a = off[n.lineno - 1] + len(lines[n.lineno - 1].encode()[:n.col_offset].decode())
        b = off[n.end_lineno - 1] + len(lines[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
        return a, b

    def rep(n, text):
        a, b = pos(n)
        return src[:a] + text + src[b:]
    seg = lambda n: src[pos(n)[0]:pos(n)[1]]
    roots = [n for n in tree.body if path not in ONLY or getattr(n, "name", None) in ONLY[path]]
    for root in roots:
        for n in walk(root):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = type(n.ops[0])
                for tab in (CMP, FLIP):
                    if o in tab:
                        yield n, "%s %s %s" % (seg(n.left), tab[o], seg(n.comparators[0])), rep(n, "(%s %s %s)" % (seg(n.left), tab[o], seg(n.comparators[0])))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
                t = "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right))
                yield n, t, rep(n, t)
            elif isinstance(n, ast.BoolOp):
                t = " %s " % ("or" if isinstance(n.op, ast.And) else "and")
                t = "(" + t.join(seg(v) for v in n.values) + ")"
                yield n, t, rep(n, t)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                yield n, "drop " + seg(n), rep(n, "(" + seg(n.operand) + ")")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                v = n.value
                new = (not v) if type(v) is bool else v + 1 if type(v) is int else v * 1.01 if v > 1e-3 else v * 1e3
                yield n, "%r -> %r" % (v, new), rep(n, repr(new))
                if type(v) is float and v <= 1e-3:
                    yield n, "%r -> %r" % (v, v * 1e-4), rep(n, repr(v * 1e-4))
            elif isinstance(n, (ast.If, ast.While)):
                for t in ("not (%s)", "(%s) and False", "True or (%s)"):
                    if isinstance(n, ast.While) and t[0] != "(":
                        continue
                    yield n.test, t % seg(n.test), rep(n.test, t % seg(n.test))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)) and \
                    not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield n, "delete: " + seg(n).split("\n")[0], rep(n, "pass")
            if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
                t = "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0]))
                yield n, t, rep(n, t)


ORDER = {"optics3d.py": ["C10", "C05", "C04", "C09", "C02", "C07", "C03", "C01", "C08", "C06"],
         "Shapes/shapes.py": ["C10", "C05", "C04", "C03", "C01", "C02", "C08", "C06"],
         "general_optics.py": ["C13", "C14", "C22", "C10", "C05", "C04", "C08", "C03", "C01"],
         "general.py": ["C11", "C22", "C07", "C08", "C12"], "script_sketchconcavegratings.py": ["C12"]}


def one(job):
    k, f, line, what, text = job
    d = "/tmp/mutants/%d" % k
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPTICS3D_REPO=d, VERIF_WORKERS="2",
               VERIF_NOREPLAY="1", TMPDIR="/tmp")
    try:
        with open(os.path.join(d, f), "w", newline="") as fh:
            fh.write(text)
        try:
            compile(text, f, "exec")
        except SyntaxError:
            return dict(k=k, f=f, line=line, what=what, by="syntax")
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, env=env, capture_output=True, timeout=120)
            if r.returncode:
                return dict(k=k, f=f, line=line, what=what, by="tests")
        except subprocess.TimeoutExpired:
            return dict(k=k, f=f, line=line, what=what, by="tests")
        for p in ORDER[f]:
            e = dict(env, VERIF_RUNS=str(RUNS.get(p, 1500)))
            try:
                r = subprocess.run([PY, os.path.join(VERIF, "check.py"), p, "quick"], cwd=VERIF, env=e, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(k=k, f=f, line=line, what=what, by=p + " timeout")
            if r.returncode == 1:
                return dict(k=k, f=f, line=line, what=what, by=p)
            if r.returncode:
                return dict(k=k, f=f, line=line, what=what, by=p + " rc=%d" % r.returncode, out=(r.stdout + r.stderr)[-300:])
        return dict(k=k, f=f, line=line, what=what, by=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


RUNS = {"C10": 4000, "C05": 3000, "C12": 200, "C11": 1500}


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or FILES
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done.add((x["f"], x["line"], x["what"]))
    jobs, k = [], 0
    for f in files:
        src = open(os.path.join("/repo", f), newline="", encoding="utf-8").read()
        for n, what, text in mutants(f, src):
            k += 1
            if (f, n.lineno, what) not in done:
                jobs.append((k, f, n.lineno, what, text))
    random.Random(1).shuffle(jobs)
    lim = int(os.environ.get("LIMIT", "0"))
    jobs = jobs[:lim] if lim else jobs
    print(len(jobs), "mutants", flush=True)
    os.makedirs("/tmp/mutants", exist_ok=True)
    with ThreadPoolExecutor(4) as ex, open(out, "a") as fh:
        for r in ex.map(one, jobs):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
