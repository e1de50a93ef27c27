#!/opt/venv/bin/python
"""Systematic mutation of the package, to find behaviour no check watches (development aid; no check uses it).

usage: mutate.py OUT.jsonl N SEED [file-substring ...]
Draws N single-site mutants, runs the checks that should notice (stopping at the first violation), records the verdicts.
Survivors are read by hand: equivalent, outside every property, or a gap to close.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed

REPO = os.environ.get("MUT_REPO", "/repo")
ORDER = {
    "_convergence.py": ["C26", "C12", "C08"],
    "_elements.py": ["C01", "C02", "C03", "C19", "C20", "C10", "C17"],
    "_eom.py": ["C04", "C08", "C22"],
    "_integrate.py": ["C07", "C08"],
    "_lyapunov.py": ["C06", "C08", "C12"],
    "_perturbations.py": ["C17", "C18"],
    "_plot_helper.py": ["C29", "C21"],
    "_plot_methods.py": ["C21"],
    "_symbolic.py": ["C05", "C06"],
    "_transformations.py": ["C03", "C01"],
}
QORDER = {
    "solve": ["C12", "C14", "C08", "C15", "C28", "C11", "C09", "C13", "C10", "C16", "C18", "C25"],
    "set_problem": ["C27", "C25", "C12", "C16", "C14", "C08"],
    "__init__": ["C27", "C25", "C28", "C08", "C12", "C16", "C15", "C09", "C23"],
    "evaluate_osculating_qdot": ["C15"],
    "interpolate_states": ["C19"], "get_cartesian_history": ["C19", "C21"],
    "pretty": ["C28"], "pretty_results": ["C28", "C12"], "pretty_settings": ["C28"],
    "save_to_dict": ["C20"], "default": ["C20"],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
SWAP = {"sin": "cos", "cos": "sin", "max": "min", "min": "max", "arctan2": "arctan2~", "linspace": None}


def sites(tree):
    """yield (description, function, mutate(tree_copy_node)) as path indices"""
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def fn(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, ast.FunctionDef):
                return n.name
        return ""

    def skip(n):
        m = n
        while m in parents:
            if isinstance(m, ast.Expr) and isinstance(m.value, ast.Constant):
                return True
            if isinstance(m, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
                return True
            if isinstance(m, ast.Call) and getattr(m.func, "id", "") == "print":
                return True
            if isinstance(m, ast.FunctionDef) and n in ast.walk(ast.Module(body=m.decorator_list, type_ignores=[])):
                return True
            m = parents[m]
        return False
    for i, n in enumerate(nodes):
        if fn(n) == "" or skip(n):
            continue
        f = fn(n)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield i, "cmp", f, (k, new)
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield i, "bin", f, new
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            if isinstance(n.value, bool):
                yield i, "bool", f, None
            else:
                yield i, "const+1", f, None
                if n.value not in (0, 1):
                    yield i, "const*", f, None
        elif isinstance(n, ast.BoolOp):
            yield i, "boolop", f, None
        elif isinstance(n, ast.UnaryOp):
            yield i, "unary", f, None
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            yield i, "if-true", f, None
            yield i, "if-false", f, None
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(parents[n], ast.ClassDef):
            yield i, "delete", f, None
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield i, "delete", f, None
        elif isinstance(n, ast.Call):
            nm = getattr(n.func, "attr", getattr(n.func, "id", ""))
            if nm in ("sin", "cos", "max", "min"):
                yield i, "call", f, None
            elif nm in ("abs", "copy", "list", "array", "float"):
                yield i, "drop", f, None
            if len(n.args) >= 2 and nm not in ("isinstance", "range"):
                for k in range(len(n.args)-1):
                    yield i, "swap", f, k
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
            pass


def apply(tree, site):
    i, kind, f, arg = site
    nodes = list(ast.walk(tree))
    n = nodes[i]
    par = {}
    for m in nodes:
        for fld, v in ast.iter_fields(m):
            if isinstance(v, list):
                for k, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        par[c] = (m, fld, k)
            elif isinstance(v, ast.AST):
                par[v] = (m, fld, None)

    def replace(new):
        m, fld, k = par[n]
        if k is None:
            setattr(m, fld, new)
        else:
            getattr(m, fld)[k] = new
    if kind == "cmp":
        n.ops[arg[0]] = arg[1]()
    elif kind == "bin":
        n.op = arg()
    elif kind == "bool":
        n.value = not n.value
    elif kind == "const+1":
        n.value = n.value+1
    elif kind == "const*":
        n.value = n.value*1.01 if isinstance(n.value, float) else n.value-1
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "unary":
        replace(n.operand)
    elif kind in ("if-true", "if-false"):
        n.test = ast.Constant(kind == "if-true")
    elif kind == "delete":
        replace(ast.Pass())
    elif kind == "call":
        t = n.func
        nm = getattr(t, "attr", getattr(t, "id", ""))
        if isinstance(t, ast.Attribute):
            t.attr = SWAP[nm]
        else:
            t.id = SWAP[nm]
    elif kind == "drop":
        if n.args:
            replace(n.args[0])
        elif isinstance(n.func, ast.Attribute):
            replace(n.func.value)
    elif kind == "swap":
        n.args[arg], n.args[arg+1] = n.args[arg+1], n.args[arg]
    ast.fix_missing_locations(tree)


def collect(filters):
    out = []
    d = os.path.join(REPO, "pyqlaw")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py") or fn == "__init__.py" or (filters and not any(x in fn for x in filters)):
            continue
        src = open(os.path.join(d, fn)).read()
        for s in sites(ast.parse(src)):
            out.append((fn, s))
    return out


def one(job):
    fn, s = job
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.path.join(REPO, "pyqlaw"), os.path.join(tmp, "pyqlaw"))
        p = os.path.join(tmp, "pyqlaw", fn)
        src = open(p).read()
        tree = ast.parse(src)
        node = list(ast.walk(tree))[s[0]]
        line = getattr(node, "lineno", 0)
        base = ast.unparse(ast.parse(src))
        apply(tree, s)
        new = ast.unparse(tree)
        import difflib
        diff = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        rec = dict(file=fn, line=line, fn=s[2], kind=s[1], diff=diff)
        if not diff:
            return dict(rec, verdict="same")
        open(p, "w").write(new)
        order = ORDER.get(fn) or QORDER.get(s[2], ["C25", "C08", "C16"])
        rec["checks"] = []
        for c in order:
            env = dict(os.environ, VERIF_REPO=tmp, VERIF_JOBS=os.environ.get("MJ", "2"), VERIF_STOP="1", VERIF_BUDGET=os.environ.get("MB", "90"), VERIF_EVIDENCE=tmp,
                       PYTHONDONTWRITEBYTECODE="1", VERIF_TIER="quick")
            try:
                r = subprocess.run(["bash", os.path.join(os.environ.get("VERIF_DIR", "/verif"), "check.sh"), c, "quick"], env=env, capture_output=True, text=True, timeout=400)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 124, ""
            rec["checks"].append((c, rc))
            if rc == 1 and "VIOLATION" in o:
                return dict(rec, verdict="caught", by=c, how=[l.strip()[:160] for l in o.splitlines() if l.strip().startswith("[")][:1])
        return dict(rec, verdict="SURVIVED")
    except Exception as e:
        return dict(file=fn, fn=s[2], kind=s[1], verdict="error %r" % e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    allsites = collect(sys.argv[4:])
    random.Random(seed).shuffle(allsites)
    print(len(allsites), "sites")
    with ThreadPoolExecutor(int(os.environ.get("PJ", "4"))) as ex, open(out, "a") as f:
        for r in as_completed([ex.submit(one, j) for j in allsites[:n]]):
            r = r.result()
            f.write(json.dumps(r) + "\n")
            f.flush()
