"""Mutation testing of the checks: python mutate.py OUT.jsonl N SEED [FILES...]
Generates small source mutants of spreg, keeps those the existing tests do not notice, runs the checks anchored in the file."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, hashlib, time
from concurrent.futures import ThreadPoolExecutor, as_completed
REPO, VERIF = os.environ.get("MUT_REPO", "/tmp/r2"), os.environ.get("MUT_VERIF", "/tmp/vmut")
PY = "/opt/venv/bin/python"
IGN = ["diagnostics_panel", "nslx", "panel", "sur", "sur_error", "sur_lag"]
ENV = {"PATH": "/usr/bin:/bin", "HOME": "/root", "MPLCONFIGDIR": "/tmp/verif-mpl", "PYTHONDONTWRITEBYTECODE": "1",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "VERIF_PROCS": "1", "VERIF_SEED": "1"}
PROPS = {}
for l in open(VERIF + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        PROPS.setdefault(f.split("/")[-1], []).append(d["id"])
EXTRA = {
 "utils.py": "P36 P06 P07 P10 P12 P28 P15 P01", "user_output.py": "P30 P31 P32 P07 P35 P06 P14 P15 P20 P22", "output.py": "P35 P14 P18 P06 P16", "summary_output.py": "P35", "w_utils.py": "P36",
 "sputils.py": "P29 P36", "regimes.py": "P14 P15 P18 P16 P17 P31", "error_sp.py": "P10 P13 P35 P30 P32 P31 P33", "error_sp_hom.py": "P11 P13 P35 P30 P32 P31", "error_sp_het.py": "P12 P13 P35 P30 P32 P31",
 "error_sp_regimes.py": "P37 P16 P13 P18 P35 P31 P32", "error_sp_hom_regimes.py": "P37 P16 P13 P18 P35 P31 P32", "error_sp_het_regimes.py": "P37 P16 P13 P18 P35 P31 P32", "twosls_sp_regimes.py": "P37 P15 P13 P18 P35 P31 P32 P29 P02",
 "twosls_sp.py": "P06 P13 P29 P35 P30 P32 P31 P02 P07", "ols_regimes.py": "P37 P14 P13 P26 P18 P35 P31 P32 P03 P04 P02", "twosls_regimes.py": "P37 P14 P13 P18 P35 P31 P32 P02", "ml_lag.py": "P08 P13 P29 P35 P32", "ml_error.py": "P09 P13 P35 P32",
 "ml_lag_regimes.py": "P37 P17 P13 P29 P18 P35 P31", "ml_error_regimes.py": "P37 P17 P13 P18 P35 P31", "ols.py": "P01 P02 P03 P04 P07 P13 P35 P32 P30 P31", "twosls.py": "P05 P02 P13 P35 P32 P30 P31 P04 P07", "diagnostics.py": "P03 P01 P05",
 "diagnostics_sp.py": "P04 P06", "diagnostics_tsls.py": "P04 P06 P05", "robust.py": "P02 P14 P05", "panel.py": "P19 P20 P21 P35 P30 P31 P32", "panel_fe.py": "P20 P35 P31 P32", "panel_re.py": "P20 P35 P31 P32", "sp_panels.py": "P20 P35 P31 P32",
 "panel_utils.py": "P20 P19 P32", "diagnostics_panel.py": "P21", "sur.py": "P22 P35 P31 P32", "sur_error.py": "P23 P35 P31 P32", "sur_lag.py": "P23 P35 P31 P32", "sur_utils.py": "P22 P23 P32 P31", "diagnostics_sur.py": "P22 P23", "probit.py": "P24 P35 P31 P32 P30",
 "diagnostics_probit.py": "P24", "nslx.py": "P25 P35 P31 P32", "skater_reg.py": "P26 P31", "spsearch.py": "P27 P31", "dgp.py": "P28", "opt.py": "P36"}


def spans(src):
    """yield (start, end, new, kind) character edits"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    main_at = min([n.lineno for n in tree.body if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test)] + [10 ** 9])
    tests = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == "_test"]
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n
    infun = lambda n: any(isinstance(q, ast.FunctionDef) for q in chain(n, par))
    def chain(n, par):
        while id(n) in par:
            n = par[id(n)]
            yield n
    def between(a, c, olds):
        s, e = pos(a)[1], pos(c)[0]
        t = b[s:e].decode()
        for o in olds:
            i = t.find(o)
            if i >= 0:
                return s + len(t[:i].encode()), s + len(t[:i].encode()) + len(o)
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or n.lineno >= main_at or id(n) in skip or not infun(n):
            continue
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}.get(type(n.op))
            if m and not any(isinstance(q, ast.Constant) and isinstance(q.value, str) for q in ast.walk(n)):
                p = between(n.left, n.right, [m[0]])
                if p:
                    yield p + (m[1], "arith")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}.get(type(n.ops[0]))
            if m:
                p = between(n.left, n.comparators[0], [m[0]])
                if p:
                    yield p + (m[1], "cmp")
        elif isinstance(n, ast.Constant) and not isinstance(par.get(id(n)), ast.Expr):
            p = pos(n)
            if n.value is True or n.value is False:
                yield p + (str(not n.value), "bool")
            elif isinstance(n.value, int):
                yield p + (str(n.value + 1), "int")
            elif isinstance(n.value, float) and n.value not in (0.0,):
                yield p + (repr(n.value * 1.5), "float")
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o = "and" if isinstance(n.op, ast.And) else "or"
            p = between(n.values[0], n.values[1], [o])
            if p:
                yield p + ("or" if o == "and" else "and", "bool")
        elif isinstance(n, (ast.If, ast.IfExp)):
            p = pos(n.test)
            yield p + ("(not (" + b[p[0]:p[1]].decode() + "))", "negif")
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg and not (isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and 0):
                    s, e = pos(kw)
                    while e < len(b) and b[e:e + 1] in b" \t\r\n":
                        e += 1
                    if b[e:e + 1] == b",":
                        yield (s, e + 1, "", "dropkw")
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            p = pos(n)
            yield (p[1] - 2, p[1], "", "dropT")
        elif isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Attribute, ast.Name)) and not ast.unparse(n.value.func).startswith("print")):
            p = pos(n)
            yield p + ("pass", "dropstmt")
        elif isinstance(n, ast.Call) is False and isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass


def copy():
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    subprocess.run(["rsync", "-a", REPO + "/", d + "/"], check=True)
    return d


def work(job):
    f, s, e, new, kind = job
    d = copy()
    try:
        p = os.path.join(d, "spreg", f)
        b = open(p, "rb").read()
        m = b[:s] + new.encode() + b[e:]
        ln = b[:s].count(b"\n") + 1
        try:
            compile(m, f, "exec")
        except SyntaxError:
            return None
        open(p, "wb").write(m)
        r = {"file": f, "line": ln, "kind": kind, "s": s, "e": e, "old": b[s:e].decode(), "new": new, "text": m.split(b"\n")[ln - 1].decode().strip()[:150]}
        env = dict(ENV, PYTHONPATH=d)
        cmd = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--tb=no", "--deselect", "spreg/tests/test_error_sp.py::TestGMMError::test_regimes"] + ["--ignore=spreg/tests/test_%s.py" % i for i in IGN] + ["spreg"]
        try:
            q = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            r["status"] = "killed"; return r
        bad = [l for l in q.stdout.splitlines() if "failed" in l and "passed" in l or "error" in l.lower()]
        if "passed" not in q.stdout or " failed" in q.stdout or " error" in q.stdout:
            r["status"] = "killed"; return r
        r["status"] = "missed"
        r["ran"] = []
        ids = EXTRA[f].split() if f in EXTRA else PROPS.get(f, [])
        for c in ids:
            try:
                q = subprocess.run([PY, "run.py", c, "--tier", "quick"], cwd=VERIF, env=dict(env, VERIF_REPO=d), capture_output=True, text=True, timeout=700)
            except subprocess.TimeoutExpired:
                r["ran"].append(c + ":timeout"); continue
            if q.returncode == 1:
                r["status"] = "caught"; r["by"] = c
                r["viol"] = [l.strip()[:170] for l in q.stdout.splitlines() if ": " in l and l.startswith("  ") and not l.startswith("   ")][:1]
                break
            if q.returncode == 2:
                r["status"] = "error"; r["by"] = c; r["out"] = q.stdout[-500:]
                break
            r["ran"].append(c)
        return r
    finally:
        shutil.rmtree(d)


def main():
    out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(EXTRA)
    g = random.Random(seed)
    jobs = []
    done = set()
    import glob
    for o in glob.glob("/tmp/mut/*.jsonl"):
        for l in open(o):
            d = json.loads(l); done.add((d["file"], d["s"], d["new"]))
    dead = ()
    for f in files:
        src = open(os.path.join(REPO, "spreg", f), newline="").read()
        ok = lambda j: True
        if f == "summary_output.py":
            t = {n.name: n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef)}
            live, todo = set(), ["SUR", "GM_Panels", "Panel_FE_Lag", "Panel_FE_Error"]
            while todo:
                q = todo.pop()
                if q in t and q not in live:
                    live.add(q)
                    todo += [m.id for m in ast.walk(t[q]) if isinstance(m, ast.Name)]
            rows = [(t[q].lineno, t[q].end_lineno) for q in live]
            ok = lambda j: any(a <= src.encode()[:j[0]].count(b"\n") + 1 <= b for a, b in rows)
        for j in spans(src):
            if not ok(j):
                continue
            if (f, j[0], j[2]) not in done:
                jobs.append((f,) + j)
    print(len(jobs), "candidates")
    g.shuffle(jobs)
    seen = {}
    def key(j):      # rank within the file, so that small files are not drowned
        seen[j[0]] = seen.get(j[0], 0) + 1
        return seen[j[0]] * (1 + 0.2 * g.random()) / sum(1 for q in cnts if q == j[0]) ** 0.5
    cnts = [q[0] for q in jobs]
    from collections import Counter
    C = Counter(cnts)
    key = lambda j: (seen.__setitem__(j[0], seen.get(j[0], 0) + 1) or seen[j[0]]) / C[j[0]] ** 0.5
    jobs.sort(key=key)
    jobs = jobs[:N]
    t0 = time.time()
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("MUTPROCS", "8"))) as ex, open(out, "a") as fh:
        for fu in as_completed([ex.submit(work, j) for j in jobs]):
            r = fu.result()
            if r is None:
                continue
            cnt[r["status"]] = cnt.get(r["status"], 0) + 1
            fh.write(json.dumps(r) + "\n"); fh.flush()
            if r["status"] in ("missed", "error"):
                print("%s %s:%d [%s] %r -> %r | %s" % (r["status"].upper(), r["file"], r["line"], r["kind"], r["old"][:60], r["new"][:60], r["text"]), flush=True)
    print(cnt, round(time.time() - t0), "s")


main()
