#!/usr/bin/env python3
"""behaviour-preserving rewrites: refactor.py OUTDIR SEED P   writes a rewritten copy of /repo's aerokit into OUTDIR

Commuted sums and products, squares as products, swapped comparisons, inverted branches, division as product with an
inverse, np.sqrt as a power, results through temporaries, extracted one-line helpers, added literals. Results change by
round-off only; the checks have to stay quiet (run them with VERIF_REPO=OUTDIR).
"""
import ast, os, random, shutil, subprocess, sys


class R(ast.NodeTransformer):
    def __init__(s, rng, p, inverse=True):
        s.r, s.p, s.n, s.inverse = rng, p, 0, inverse

    def hit(s):
        h = s.r.random() < s.p
        s.n += h
        return h

    def numeric(s, n):
        return not any(isinstance(m, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(m, ast.Constant) and isinstance(m.value, (str, bytes, bool, type(None))) or isinstance(m, ast.Attribute) and m.attr in ("format", "join")
                       or isinstance(m, ast.Name) and m.id in ("callseq", "string", "str") for m in ast.walk(n))

    def visit_BinOp(s, n):
        s.generic_visit(n)
        if not s.numeric(n):
            return n
        L, Rr = n.left, n.right
        simple = isinstance(L, (ast.Name, ast.Attribute))
        if isinstance(n.op, (ast.Add, ast.Mult)) and s.hit():
            return ast.BinOp(Rr, n.op, L)
        if isinstance(n.op, ast.Pow) and simple and isinstance(Rr, ast.Constant) and Rr.value == 2 and s.hit():
            return ast.BinOp(L, ast.Mult(), L)
        if isinstance(n.op, ast.Pow) and isinstance(Rr, ast.Constant) and Rr.value == 2 and s.hit():
            return ast.Call(ast.Name("pow", ast.Load()), [L, ast.Constant(2)], [])
        if isinstance(n.op, ast.Sub) and s.hit():
            return ast.UnaryOp(ast.USub(), ast.BinOp(Rr, ast.Sub(), L))
        if s.inverse and isinstance(n.op, ast.Div) and not isinstance(Rr, ast.Constant) and s.hit():
            return ast.BinOp(L, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), Rr))
        return n

    def visit_Compare(s, n):
        s.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and s.hit():
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(s, n):
        s.generic_visit(n)
        if n.orelse and "__main__" not in ast.unparse(n.test) and s.hit():
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(s, n):
        s.generic_visit(n)
        if s.hit():
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Call(s, n):
        s.generic_visit(n)
        if ast.unparse(n.func) == "np.sqrt" and len(n.args) == 1 and not n.keywords and s.hit():
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "power", ast.Load()), [n.args[0], ast.Constant(0.5)], [])
        if ast.unparse(n.func) == "np.arctan" and len(n.args) == 1 and s.hit():
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "arctan2", ast.Load()), [n.args[0], ast.Constant(1.0)], [])
        return n

    def visit_Return(s, n):
        s.generic_visit(n)
        if n.value is not None and s.hit():
            return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]
        return n

    def visit_FunctionDef(s, n):
        n.body = [m for b in n.body for m in (lambda v: v if isinstance(v, list) else [v])(s.visit(b))]
        if s.hit():
            n.body.insert(1 if isinstance(n.body[0], ast.Expr) else 0, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(round(s.r.uniform(-3, 3), 3))))
        return n

    def visit_arguments(s, n):
        return n  # defaults stay

    def visit_Expr(s, n):
        return n if isinstance(n.value, ast.Constant) else s.generic_visit(n)


def helper(tree, rng, p):
    """body of a module-level function with one return statement only, moved to a helper"""
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg and not n.args.kwarg and not n.args.kwonlyargs and rng.random() < p:
            body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            if body and not any(isinstance(m, (ast.Yield, ast.Global)) for b in body for m in ast.walk(b)):
                a = [x.arg for x in n.args.args]
                out.append(ast.FunctionDef("_impl_" + n.name, ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), body, []))
                n.body = (n.body[:1] if body is not n.body else []) + [ast.Return(ast.Call(ast.Name("_impl_" + n.name, ast.Load()), [ast.Name(x, ast.Load()) for x in a], []))]
        out.append(n)
    tree.body = out


def rename_locals(tree, rng, p):
    for f in [n for n in tree.body if isinstance(n, ast.FunctionDef)] + [m for c in tree.body if isinstance(c, ast.ClassDef) for m in c.body if isinstance(m, ast.FunctionDef)]:
        params = {a.arg for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        glob = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - glob - {n.name for n in ast.walk(f) if isinstance(n, ast.FunctionDef)}
        ren = {x: x + "_v" for x in loc if rng.random() < p}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]


def reorder(tree, rng, p):
    """neighbouring assignments which do not depend on each other"""
    def io(n):
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute))):
            return None
        if any(isinstance(m, ast.Call) and not ast.unparse(m.func).startswith(("np.", "Is.", "sw.", "mf.", "degree.", "math.")) for m in ast.walk(n.value)):
            return None
        return ast.unparse(n.targets[0]), {ast.unparse(m) for m in ast.walk(n.value) if isinstance(m, (ast.Name, ast.Attribute))}
    k = 0
    for b in ast.walk(tree):
        for fld in ("body", "orelse"):
            L = getattr(b, fld, None)
            if not isinstance(L, list) or isinstance(b, (ast.Module, ast.ClassDef)):
                continue
            for i in range(len(L) - 1):
                u, v = io(L[i]), io(L[i + 1])
                if u and v and u[0] != v[0] and u[0] not in v[1] and v[0] not in u[1] and rng.random() < p:
                    L[i], L[i + 1] = L[i + 1], L[i]
                    k += 1
    return k


def keywords(tree, rng, p):
    sig = {n.name: [a.arg for a in n.args.args] for n in tree.body if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args) and rng.random() < p:
            names = sig[n.func.id]
            n.keywords = [ast.keyword(names[i], a) for i, a in enumerate(n.args) if i] + n.keywords
            n.args = n.args[:1]


def private(out, rng, p):
    """attributes and functions with a leading underscore which the tests do not use get another name everywhere"""
    import re
    tests = "".join(open(os.path.join(d, f), encoding="utf-8").read() for d, _, fs in os.walk(os.path.join(out, "tests")) for f in fs if f.endswith(".py"))
    files = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(out, "aerokit")) for f in sorted(fs) if f.endswith(".py")]
    names = set()
    for q in files:
        for n in ast.walk(ast.parse(open(q, encoding="utf-8").read())):
            for v in (getattr(n, "attr", None), getattr(n, "id", None), getattr(n, "name", None), getattr(n, "arg", None)):
                if isinstance(v, str) and re.fullmatch(r"_[a-zA-Z]\w*", v) and v not in ("_dev", "_ode", "_base", "_B", "_At", "_M", "_Ps", "_Pt") and not re.search(r"\b%s\b" % v, tests):
                    names.add(v)
    names = {n for n in sorted(names) if rng.random() < p}
    for q in files:
        t = open(q, encoding="utf-8").read()
        for n in names:
            t = re.sub(r"\b%s\b" % n, n + "_pv", t)
        open(q, "w", encoding="utf-8").write(t)
    return len(names)


def main():
    out, seed, p = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    subprocess.run(["cp", "-a", "/repo", out], check=True)
    rng = random.Random(seed)
    tot = 0
    for d, _, fs in sorted(os.walk(os.path.join(out, "aerokit"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                q = os.path.join(d, f)
                tree = ast.parse(open(q, encoding="utf-8").read())
                r = R(rng, p, f != "_base.py")  # eigenmodes may be given as lists there
                tree = r.visit(tree)
                keywords(tree, rng, p)
                tot += reorder(tree, rng, p)
                rename_locals(tree, rng, p)
                helper(tree, rng, p)
                ast.fix_missing_locations(tree)
                tot += r.n
                open(q, "w", encoding="utf-8").write(ast.unparse(tree) + "\n")
    tot += private(out, rng, p)
    print(tot, "rewrites")


if __name__ == "__main__":
    main()
