#!/usr/bin/env python3
"""mutation testing of the checks: mutate.py OUT.jsonl [--files a,b] [--sample N] [--jobs J] [--verif DIR]

Small source mutations of aerokit (operators, constants, comparisons, dropped arguments, deleted statements, swapped names).
Mutants which the existing tests notice are dropped; the others are given to the checks of the properties anchored in the
file. What no check reports is listed for review (equivalent mutant or hole). Works on copies under /tmp.
"""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile, threading

REPO = "/repo"
MAP = {
    "aero/Isentropic.py": "C01 C21 C20 C30", "aero/MassFlow.py": "C02 C03 C21", "aero/Supersonic.py": "C04 C21 C20", "aero/ShockWave.py": "C05 C06 C07 C08 C09 C21 C18",
    "aero/Fanno.py": "C10 C21", "aero/Rayleigh.py": "C11 C21", "aero/model1D.py": "C12 C13 C27 C35", "aero/unsteady1D.py": "C13 C14 C15 C16 C17", "instance/riemann.py": "C14 C15 C16 C35",
    "instance/unsteady_inflow.py": "C17 C35", "instance/nozzle.py": "C18 C19 C20", "common/defaultgas.py": "C20", "aero/CompressibleFlow.py": "C21", "aero/degree.py": "C22 C21",
    "common/numspectral.py": "C23 C24 C27", "common/_dev.py": "C23 C24 C19 C14", "common/_ode.py": "C25 C09", "aero/IterativeSolve.py": "C25 C03 C05", "stability/_base.py": "C26 C27 C28 C35", "stability/Euler.py": "C27",
    "stability/OrrSommerfeld.py": "C28", "aero/ThermoKerosen.py": "C29", "aero/ThermoRealGas.py": "C29", "engine/gasgenerator.py": "C30", "engine/turbojet.py": "C30", "engine/turbofan.py": "C30",
    "engine/Cycle_Turbofan.py": "C31 C35", "engine/propu_be.py": "C31", "engine/propu_be_double_corps.py": "C31 C35", "common/dicovar.py": "C32 C35", "common/extendvar.py": "C34", "aero/Propulsion.py": "C34",
    "aero/plot/isentropicpolar.py": "C33", "aero/plot/shockpolar.py": "C33", "aero/plot/defaultstyle.py": "C33", "aero/nozzle.py": "C21", "aero/riemann.py": "C21", "aero/refstate.py": "C12",
}
SWAP = [("left", "right"), ("L", "R"), ("Sub", "Sup"), ("sub", "sup"), ("min", "max"), ("minimum", "maximum"), ("sin", "cos"), ("cold", "hot"), ("arctan", "arcsin"), ("floor", "ceil"), ("_R", "_L"), ("xmin", "xmax")]


def mutants(path):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def add(n, new, kind):
        s, e = span(n)
        old = b[s:e].decode()
        if new != old:
            out.append((s, e, new, kind, n.lineno, old))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n.value)
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            for m in ast.walk(n):
                doc.add(m)
    OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*"}
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            if isinstance(v, int):
                add(n, repr(v + 1), "const")
                if v > 0:
                    add(n, repr(v - 1), "const")
            else:
                add(n, repr(v * 1.03 if v else 0.01), "const")
                if abs(v) < 1e-2:
                    add(n, repr(v * 1e3), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), "bool")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            add(n, "((%s) %s (%s))" % (seg(n.left), OPS[type(n.op)], seg(n.right)), "op")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, "(%s)" % seg(n.left), "drop-term")
            if isinstance(n.op, ast.Mult):
                add(n, "(%s)" % seg(n.left), "drop-factor")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add(n, "(%s)" % seg(n.operand), "neg")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "(%s) %s (%s)" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values), "boolop")
        elif isinstance(n, ast.If) and not isinstance(n.test, ast.Constant):
            add(n.test, "True", "if")
            add(n.test, "False", "if")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            args = [seg(a) for a in n.args]
            kws = ["%s=%s" % (k.arg, seg(k.value)) if k.arg else "**" + seg(k.value) for k in n.keywords]
            for i, k in enumerate(n.keywords):
                if k.arg:
                    add(n, "%s(%s)" % (f, ", ".join(args + kws[:i] + kws[i + 1:])), "drop-kw")
            if len(args) > 1 and not kws:
                add(n, "%s(%s)" % (f, ", ".join(args[:-1])), "drop-arg")
            if len(args) > 1:
                add(n, "%s(%s)" % (f, ", ".join([args[1], args[0]] + args[2:] + kws)), "swap-args")
            if f in ("np.abs", "abs", "float", "np.array", "_copy.deepcopy", "np.asarray", "np.copy") and len(args) == 1 and not kws:
                add(n, "(%s)" % args[0], "unwrap")
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            for p, q in SWAP:
                for u, v in ((p, q), (q, p)):
                    if (len(u) > 1 and u in nm) or nm == u or nm.endswith("_" + u) or nm.endswith(u) and len(u) == 1 and nm.startswith("_"):
                        s, e = span(n)
                        t = b[s:e].decode()
                        k = t.rfind(u)
                        if k >= 0:
                            add(n, t[:k] + v + t[k + len(u):], "swap-name")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                # re-assignments only: deleting a first one is a plain NameError
                if not isinstance(n.targets[0], ast.Name) or ast.unparse(n.targets[0]) not in ast.unparse(n.value):
                    continue
            if isinstance(n, ast.Expr) and "print" in seg(n.value.func):
                continue
            add(n, "pass", "delete")
    seen, res = set(), []
    for m in out:
        if (m[0], m[1], m[2]) not in seen:
            seen.add((m[0], m[1], m[2]))
            new = b[:m[0]] + m[2].encode() + b[m[1]:]
            try:
                compile(new, path, "exec")
            except SyntaxError:
                continue
            res.append((new, m))
    return res


def main():
    args = sys.argv[1:]
    outp = args[0]
    opt = dict(zip(args[1::2], args[2::2]))
    files = [f for f in opt.get("--files", "").split(",") if f] or list(MAP)
    verif = opt.get("--verif", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    jobs = int(opt.get("--jobs", "6"))
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add(d["id"])
    todo = []
    for f in files:
        for k, (new, m) in enumerate(mutants(os.path.join(REPO, "aerokit", f))):
            i = "%s:%d:%d:%s:%s" % (f, m[4], m[0], m[3], m[2][:60])
            if i not in done:
                todo.append((i, f, new, m))
    random.Random(5).shuffle(todo)
    if "--sample" in opt:
        todo = todo[: int(opt["--sample"])]
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    pool = []
    root = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    for j in range(jobs):
        w = os.path.join(root, str(j))
        subprocess.run(["cp", "-a", REPO, w], check=True)
        shutil.rmtree(os.path.join(w, ".git"), ignore_errors=True)
        pool.append(w)

    def run(t):
        i, f, new, m = t
        with lock:
            w = pool.pop()
        p = os.path.join(w, "aerokit", f)
        old = open(p, "rb").read()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=w, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        r = dict(id=i, line=m[4], kind=m[3], old=m[5][:200], new=m[2][:200])
        try:
            open(p, "wb").write(new)
            try:
                q = subprocess.run("ulimit -v 8000000; timeout 120 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --no-cov tests", shell=True, cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
                r["tests"] = q.returncode
            except subprocess.TimeoutExpired:
                r["tests"] = 99
            if r["tests"] == 0:
                r["caught"] = None
                for c in MAP[f].split():
                    e = dict(env, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=os.path.join(w, "out"), VERIF_SHRINK_S="1", VERIF_JOBS="2", VERIF_HANG_S="20")
                    q = subprocess.run("ulimit -v 12000000; timeout 600 bash %s/check.sh %s" % (verif, c), shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if q.returncode == 1 and "VIOLATION" in q.stdout:
                        r["caught"] = c
                        break
                    if q.returncode:
                        r.setdefault("odd", []).append([c, q.returncode, q.stdout[-500:]])
        finally:
            open(p, "wb").write(old)
            with lock:
                pool.append(w)
                with open(outp, "a") as o:
                    o.write(json.dumps(r) + "\n")

    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(run, todo))
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    main()
