#!/opt/venv/bin/python
"""Mutation sweep, for finding holes in the checks (development only).
mutants.py gen DIR          one copy-on-write patch per mutant of /repo/bip38 that passes the stable tests
mutants.py run DIR [IDS]    runs the checks on each survivor until one reports it"""
import ast, copy, json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseeds import PY, sh
FILES = ["bip38.py", "crypto.py", "utils.py", "wif.py", "p2pkh_address.py", "exceptions.py", "const.py", "libs/base58.py", "libs/ripemd160.py", "secp256k1/point.py", "secp256k1/private_key.py", "secp256k1/public_key.py"]
ROOT = "/repo/bip38/"
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult, ast.BitXor: ast.BitOr, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def sites(tree):
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    skip = set()
    for n in ast.walk(tree):
        ann = [getattr(n, "annotation", None), getattr(n, "returns", None)]
        if isinstance(n, ast.ClassDef) and n.name.startswith("Test"):
            ann.append(n)
        for a in ann:
            if a is not None:
                skip.update(id(x) for x in ast.walk(a))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in skip:
            continue
        yield n


def mutate(tree):
    """Yields (description, function that mutates a node found by index)."""
    nodes = list(sites(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for r in CMP.get(type(op), []):
                    yield i, "cmp%d %s" % (k, r.__name__), (lambda m, k=k, r=r: m.ops.__setitem__(k, r()))
        elif isinstance(n, ast.BoolOp):
            yield i, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for k in range(len(n.values)):
                yield i, "drop%d" % k, lambda m, k=k: (m.values.pop(k) if len(m.values) > 1 else 0)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, "binop", lambda m: setattr(m, "op", BIN[type(m.op)]())
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            yield i, "unary", lambda m: setattr(m, "op", ast.UAdd() if not isinstance(m.op, ast.Not) else ast.Not()) if not isinstance(m.op, ast.Not) else m.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(ast.Not(), m.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield i, "bool", lambda m: setattr(m, "value", not m.value)
            elif isinstance(n.value, int):
                for d in (1, -1):
                    yield i, "int%+d" % d, lambda m, d=d: setattr(m, "value", m.value + d)
            elif isinstance(n.value, bytes) and n.value:
                yield i, "bytes", lambda m: setattr(m, "value", m.value + b"\0")
        elif isinstance(n, ast.If):
            yield i, "if True", lambda m: setattr(m, "test", ast.Constant(True))
            yield i, "if False", lambda m: setattr(m, "test", ast.Constant(False))
        elif isinstance(n, ast.IfExp):
            yield i, "ifexp body", lambda m: setattr(m, "test", ast.Constant(True))
            yield i, "ifexp else", lambda m: setattr(m, "test", ast.Constant(False))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield i, "slice no lower", lambda m: setattr(m, "lower", None)
            if n.upper is not None:
                yield i, "slice no upper", lambda m: setattr(m, "upper", None)
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield i, "drop kw %s" % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
                yield i, "call->arg", lambda m: m.__dict__.update(func=ast.Name("_id_", ast.Load()))
        elif isinstance(n, ast.ExceptHandler):
            yield i, "except reraise", lambda m: setattr(m, "body", [ast.Raise()])
        elif isinstance(n, (ast.FunctionDef, ast.For, ast.While)):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield i, "del stmt %d" % k, lambda m, k=k: m.body.__setitem__(k, ast.Pass())


def gen(out):
    os.makedirs(out, exist_ok=True)
    jobs = []
    for f in FILES:
        src = open(ROOT + f, encoding="utf-8").read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for i, what, fn in mutate(ast.parse(src)):
            t = ast.parse(src)
            n = list(sites(t))[i]
            line = getattr(n, "lineno", 0)
            try:
                fn(n)
                if "call->arg" in what:
                    t.body.insert(1 if not src.startswith("from __future__") else 2, ast.parse("_id_ = lambda x: x").body[0])
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, f, "exec")
            except Exception as e:
                continue
            if new in seen:
                continue
            seen.add(new)
            jobs.append((f, line, what, new))
    if f == "libs/ripemd160.py":
        pass
    print(len(jobs), "mutants", flush=True)

    def test(j):
        f, line, what, new = j
        w = tempfile.mkdtemp(prefix="mut.")
        try:
            sh("cp", "-a", "/repo/bip38", "/repo/tests", w)
            open(os.path.join(w, "bip38", f), "w", encoding="utf-8").write(new)
            try:
                env = dict(os.environ, PYTHONPATH=w + ":/tmp/memo", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
                memo = ["-p", "scryptmemo"] if os.path.exists("/tmp/memo/scryptmemo.py") else []  # remembers scrypt's answers
                r = sh("timeout", "60", PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", *memo, "tests", "bip38/libs/ripemd160.py", cwd=w, env=env)
                if r.returncode not in (0, 1):
                    print(f, line, what, r.returncode, r.stdout[-300:], flush=True)
                return r.returncode == 0
            except Exception:
                return False
        finally:
            shutil.rmtree(w)
    k = 0
    with ThreadPoolExecutor(8) as ex:
        for j, ok in zip(jobs, ex.map(test, jobs)):
            if ok:
                k += 1
                json.dump(dict(file=j[0], line=j[1], what=j[2], src=open(ROOT + j[0], encoding="utf-8").read().splitlines()[j[1] - 1].strip(), new=j[3]), open(os.path.join(out, "m%04d.json" % k), "w"))
    print(k, "survive the stable tests")


ORDER = {"bip38.py": "C18 C26 C06 C01 C05 C02 C04 C03 C16 C13 C24 C25", "crypto.py": "C10 C21 C18 C13", "utils.py": "C19 C10 C18 C01 C03 C09", "wif.py": "C07 C18 C13 C20 C01", "p2pkh_address.py": "C08 C13 C18",
         "exceptions.py": "C18 C20 C21 C14", "const.py": "C18 C01 C03 C05 C06 C02 C11 C07", "libs/base58.py": "C09 C06 C07 C08 C18 C21", "libs/ripemd160.py": "C10", "secp256k1/point.py": "C11 C05 C18 C03", "secp256k1/private_key.py": "C11 C18 C05 C20", "secp256k1/public_key.py": "C11 C18 C05 C08 C20"}


def run(out, ids):
    for m in sorted(os.listdir(out)):
        if not m.endswith(".json") or (ids and m[:-5] not in ids) or os.path.exists(os.path.join(out, m[:-5] + ".res")):
            continue
        j = json.load(open(os.path.join(out, m)))
        if not ids and (j["src"].startswith(("raise ", "], got=", "bytes_to_string(integer_to_bytes(")) or j["what"] in ("drop kw expected", "drop kw got", "drop kw detail")):
            continue  # texts of errors
        w = tempfile.mkdtemp(prefix="mut.")
        sh("cp", "-a", "/repo/.", w)
        open(os.path.join(w, "bip38", j["file"]), "w", encoding="utf-8").write(j["new"])
        got = "SURVIVED"
        for c in ORDER[j["file"]].split():
            r = sh("/verif/run", c, "quick", env=dict(os.environ, VF_REPO=w))
            if r.returncode == 1:
                got = c
                break
            if r.returncode:
                got = "%s rc=%d %s" % (c, r.returncode, (r.stdout + r.stderr)[-200:])
                break
        shutil.rmtree(w)
        open(os.path.join(out, m[:-5] + ".res"), "w").write(got)
        print(m[:-5], got, j["file"], j["line"], j["what"], "|", j["src"], flush=True)


if __name__ == "__main__":
    gen(sys.argv[2]) if sys.argv[1] == "gen" else run(sys.argv[2], sys.argv[3:])
