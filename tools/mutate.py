"""Development tool: random small mutations of /repo's code, to find behaviour the checks don't decide.

usage: [AGAIN=OLD.log] [EXTRA="C01 C02"] mutate.py OUT.log N SEED [FILE-SUBSTRING ...]    Works on copies (/tmp/mut/repo of /repo, /tmp/mut/verif of the
committed /verif).  For every mutant the quick checks of the properties anchored at its file are run until one reports a
violation; survivors are logged, to be judged by hand (equivalent, outside every property, or a gap)."""
import ast, json, os, random, subprocess, sys, shutil

R, V = "/tmp/mut/repo", "/tmp/mut/verif"
SKIP_CALLS = {"warn", "print", "ValueError", "RuntimeError", "TypeError", "NotImplementedError", "warning", "info", "format", "KeyError"}
SLOW = {"C06": 37, "C07": 35, "C13": 32, "C21": 24, "C16": 23, "C22": 19, "C15": 19, "C17": 18, "C01": 15, "C14": 15, "C24": 14}


def seg(src, node):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.b, self.out = src, src.encode(), []

    def text(self, n):
        a, z = seg(self.src, n)
        return self.b[a:z].decode()

    def put(self, n, new, kind):
        a, z = seg(self.src, n)
        self.out.append((a, z, new, kind, n.lineno))

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_arguments(self, n):
        for d in n.defaults + [k for k in n.kw_defaults if k]:
            self.visit(d)

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__"):
            return
        self.visit(n.args)
        for s in n.body:
            self.visit(s)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            sw = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
                  ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for o in sw[type(n.ops[0])]:
                self.put(n, f"{l} {o} {r}", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
        if type(n.op) in sw and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.put(n, f"({self.text(n.left)} {sw[type(n.op)]} {self.text(n.right)})", "arith")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.put(n, f"({self.text(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = "or" if isinstance(n.op, ast.And) else "and"
        self.put(n, "(" + f" {o} ".join(f"({self.text(v)})" for v in n.values) + ")", "bool")
        for k in range(len(n.values)):
            self.put(n, "(" + (" or " if o == "and" else " and ").join(
                f"({self.text(v)})" for j, v in enumerate(n.values) if j != k) + ")", "bool-drop")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "const")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const")
            if v > 0:
                self.put(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.put(n, repr(v * 3 + 0.01), "const")

    def visit_If(self, n):
        self.put(n.test, "True", "if")
        self.put(n.test, "False", "if")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in SKIP_CALLS:
            return
        if name in ("clone", "detach", "copy", "abs", "squeeze", "contiguous", "sqrt") and isinstance(f, ast.Attribute) and not n.args:
            self.put(n, self.text(f.value), "drop-call")
        for k in n.keywords:
            if k.arg and k.arg not in ("name", "device"):
                a, z = seg(self.src, k.value)
                s = self.b[:a].rfind(k.arg.encode())
                e = z
                rest = self.b[e:e + 2]
                if rest[:1] == b",":
                    e += 1
                self.out.append((s, e, "", "drop-kw", n.lineno))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            a, _ = seg(self.src, n.args[0])
            _, z = seg(self.src, n.args[1])
            self.out.append((a, z, f"{self.text(n.args[1])}, {self.text(n.args[0])}", "swap-args", n.lineno))
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            f = n.value.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in SKIP_CALLS:
                return
            self.put(n, "pass", "drop-stmt")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.put(n, "pass", "drop-assign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop-aug")
        self.generic_visit(n)


def mutants(path):
    src = open(path).read()
    f = Find(src)
    f.visit(ast.parse(src))
    out = []
    for a, z, new, kind, line in f.out:
        m = (f.b[:a] + new.encode() + f.b[z:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        out.append((m, kind, line, f.b[a:z].decode()[:100], new[:100]))
    return out


def main():
    log, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pats = sys.argv[4:]
    rng = random.Random(seed)
    for d in (R, V):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    subprocess.run(["git", "clone", "-q", "/verif", V], check=True)
    where = {}
    for l in open("/verif/properties.jsonl"):
        p = json.loads(l)
        for x in p["anchors"]["files"] if "files" in p.get("anchors", {}) else p["files"]:
            where.setdefault(x, []).append(p["id"])
    pool = []
    for x, props in where.items():
        if not x.endswith(".py") or (pats and not any(q in x for q in pats)):
            continue
        for m in mutants(f"{R}/{x}"):
            pool.append((x, props, m))
    rng.shuffle(pool)
    again, extra = os.environ.get("AGAIN"), os.environ.get("EXTRA", "").split()
    if again:  # only the survivors of an earlier run, against more checks
        left = [l for l in open(again) if l.startswith("SURVIVED")]
        pool = [q for q in pool if any(l.rstrip("\n").endswith(f" {q[0]}:{q[2][2]} [{q[2][1]}] {q[2][3]!r} -> {q[2][4]!r}") for l in left)]
    out = open(log, "a")
    print(f"# pool {len(pool)}", file=out, flush=True)
    kills = 0
    for k, (x, props, (m, kind, line, old, new)) in enumerate(pool[:n]):
        orig = open(f"{R}/{x}").read()
        open(f"{R}/{x}", "w").write(m)
        dead = None
        try:
            for p in sorted(set(props) | set(extra), key=lambda q: SLOW.get(q, 8)):
                try:
                    r = subprocess.run(["bash", f"{V}/check.sh", p, "quick"], capture_output=True, text=True, timeout=400,
                                       env=dict(os.environ, RV_REPO=R))
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    dead = (p, rc)
                    break
        finally:
            open(f"{R}/{x}", "w").write(orig)
        kills += dead is not None
        print(f"{'killed ' + str(dead) if dead else 'SURVIVED ' + ','.join(sorted(set(props) | set(extra)))} {x}:{line} [{kind}] {old!r} -> {new!r}", file=out, flush=True)
    print(f"# {kills} of {min(n, len(pool))} killed", file=out, flush=True)


main()
