"""Mutation campaign: one small change at a time in a scratch copy of /repo/src, run the checks of the function changed.

usage: mutate.py OUT.jsonl N SEED WORKERS [FILE[:FUNC]] ...
Survivors are mutants no mapped check reports.  Development tool: nothing in MANIFEST.json uses it.
"""
import ast, copy, json, os, random, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
PK = "hera_pspec"
# file -> [(function regex, checks)], first match wins
MAP = {
    "uvpspec.py": [
        (r"generate_noise|convert_to_delt|set_cosmology|get_kper|get_kpar|compute_scalar|_deltasq", "C27 C13"), (r"set_stats_slice|add_approx", "C30"), (r"get_exact|get_w", "C33 C09"),
        (r"average_spectra", "C11 C13"), (r"fold_spectra", "C12"), (r"^select", "C08 C13"), (r"read|write|_clear", "C06 C07 C40 C02 C01"), (r"combine|get_uvp_overlap|__add__|recursive", "C10"), (r"__eq__", "C17"),
        (r"get_red|get_blpair_|get_ENU", "C23 C09 C27"), (r"check|units", "C06 C10 C02 C20"), (r"get_|key|indices|antnums|set_stats|polpair|_to_", "C09 C11"), (r".", "C06 C13 C09"),
    ],
    "uvpspec_utils.py": [(r"subtract|select_common", "C18"), (r"_select", "C08 C13 C07"), (r"_red", "C23"), (r"r_params", "C06"), (r"polpair|_bl|blpair|antnums", "C09 C08"), (r".", "C08 C09 C10")],
    "grouping.py": [(r"group_baselines|sample|bootstrap_resampled", "C14"), (r"argparser", "C32"), (r"bootstrap_run", "C14 C32"), (r"^average_spectra", "C11 C13"), (r"spherical", "C15"), (r"delay_bins", "C16"), (r".", "C11 C15 C16 C14")],
    "container.py": [(r"combine_psc", "C04"), (r"argparser", "C04"), (r"header|_load", "C01 C40"), (r".", "C01 C02 C03 C04")],
    "pspecdata.py": [
        (r"trim|rephase", "C28"), (r"Jy_to_mK", "C31"), (r"broadcast", "C22"), (r"pspec_run|argparser|_load|list_of", "C24 C39"), (r"validate|dset_idx|parse_blkey|check_key|^x$|^dx$|^w$|^add$|__init__|__str__", "C35 C39 C19"),
        (r"set_|clear_cache|get_spw|^R$|^Y$|^I$|^iC$", "C19 C21"), (r"^pspec$", "C20 C21 C38"), (r".", "C21 C19 C20 C38"),
    ],
    "utils.py": [
        (r"job_monitor|^log", "C25"), (r"uvd_to_Tsys|uvp_noise|P_SN|auto_time|_nearest", "C30"), (r"time_diff", "C28 C24"), (r"spw_range|get_delays", "C29"), (r"construct_blp|calc_blpair|config_pspec|reds|get_bl", "C23"),
        (r"circular", "C11 C20"), (r"variance|^cov|Q_alt", "C21 C19"), (r".", "C23 C24 C30"),
    ],
    "pstokes.py": [(r".", "C26")], "conversions.py": [(r".", "C27")], "pspecbeam.py": [(r".", "C31")], "noise.py": [(r"corr_matrix", "C30"), (r".", "C36")], "loss.py": [(r".", "C36")],
    "uvwindow.py": [(r".", "C33")], "plot.py": [(r".", "C34")], "testing.py": [(r"build_vanilla", ""), (r".", "C37")], "cli.py": [(r".", "C05")],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult}
NAMES = [("min", "max"), ("sum", "mean"), ("all", "any"), ("real", "imag"), ("time_1_array", "time_2_array"), ("lst_1_array", "lst_2_array"), ("argmin", "argmax"), ("floor", "ceil"), ("first", "last")]
SWAP = {**{a: b for a, b in NAMES}, **{b: a for a, b in NAMES}}
SKIPCALL = {"print", "warn", "raise_warning", "log", "add_argument", "isinstance", "hasattr"}


def name_of(f):
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")


def sites(fn):
    """(description, function applying the change to the node found at the same walk index of a copy)"""
    out = []
    for i, n in enumerate(ast.walk(fn)):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((i, ln, "cmp", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not isinstance(getattr(n, "left", None), (ast.JoinedStr,)) and not (isinstance(getattr(n, "left", None), ast.Constant) and isinstance(n.left.value, str)):
            out.append((i, ln, "bin", lambda m: setattr(m, "op", BIN[type(m.op)]())))
        elif isinstance(n, ast.BoolOp):
            out.append((i, ln, "bool", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            out.append((i, ln, "dropcond", lambda m: m.values.pop()))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, ln, "flip", lambda m: setattr(m, "value", not m.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and abs(n.value) <= 3:
            out.append((i, ln, "int+1", lambda m: setattr(m, "value", m.value + 1)))
            if n.value == 1:
                out.append((i, ln, "int-1", lambda m: setattr(m, "value", 0)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            out.append((i, ln, "unnot", lambda m: (setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.Invert) else setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            out.append((i, ln, "swap:" + n.attr, lambda m: setattr(m, "attr", SWAP[m.attr])))
        elif isinstance(n, ast.Call):
            nm = name_of(n.func)
            if nm in ("deepcopy", "copy") and n.args:
                out.append((i, ln, "nocopy", "nocopy"))
            if n.keywords and nm not in SKIPCALL:
                for k in range(len(n.keywords)):
                    if n.keywords[k].arg not in (None, "verbose", "file", "run_check"):
                        out.append((i, ln, "dropkw:" + n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k)))
            if len(n.args) == 2 and nm not in SKIPCALL and nm not in ("isclose", "allclose", "array_equal", "union1d", "intersect1d"):
                out.append((i, ln, "swapargs", lambda m: m.args.reverse()))
        if hasattr(n, "body") and isinstance(n.body, list):
            for field in ("body", "orelse"):
                for k, s in enumerate(getattr(n, field, []) or []):
                    drop = isinstance(s, ast.AugAssign) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and name_of(s.value.func) not in SKIPCALL
                    drop |= isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))
                    drop |= isinstance(s, (ast.Continue, ast.Break))
                    drop |= isinstance(s, ast.If) and not s.orelse
                    if drop:
                        out.append((i, s.lineno, "dropstmt", lambda m, k=k, field=field: getattr(m, field).__setitem__(k, ast.copy_location(ast.Pass(), getattr(m, field)[k]))))
    return out


class NoCopy(ast.NodeTransformer):
    def __init__(self, node):
        self.node = node

    def visit_Call(self, n):
        if n is self.node:
            return n.args[0] if n.args else n.func.value
        return self.generic_visit(n)


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield m.name, m


def all_mutants(wanted):
    muts = []
    for f, rules in MAP.items():
        if wanted and not any(w.split(":")[0] == f for w in wanted):
            continue
        tree = ast.parse(open(os.path.join(SRC, PK, f)).read())
        for name, fn in functions(tree):
            if wanted and not any(w == f or w == f"{f}:{name}" for w in wanted):
                continue
            checks = next(c for r, c in rules if re.search(r, name)).split()
            if not checks:
                continue
            for j, (i, ln, kind, act) in enumerate(sites(fn)):
                muts.append((f, name, j, ln, kind, checks))
    return muts


def build(f, name, j, dst):
    tree = ast.parse(open(os.path.join(SRC, PK, f)).read())
    fn = next(n for m, n in functions(tree) if m == name)
    i, ln, kind, act = sites(fn)[j]
    node = list(ast.walk(fn))[i]
    before = ast.unparse(fn)
    if act == "nocopy":
        NoCopy(node).visit(fn)
    else:
        act(node)
    ast.fix_missing_locations(tree)
    after = ast.unparse(fn)
    if before == after:
        return None
    import difflib

    d = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
    open(os.path.join(dst, PK, f), "w").write(ast.unparse(tree))
    return d


def main():
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    muts = all_mutants(sys.argv[5:])
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["func"], r["j"]))
    r = random.Random(seed)
    # spread over functions: a few sites of each
    byfn = {}
    for m in muts:
        byfn.setdefault(m[:2], []).append(m)
    for v in byfn.values():
        r.shuffle(v)
    order = []
    while any(byfn.values()):
        ks = sorted(byfn)
        r.shuffle(ks)
        for k in ks:
            w = 1 + len(byfn[k]) // 60
            for _ in range(w):
                if byfn[k]:
                    order.append(byfn[k].pop())
    order = [m for m in order if m[:3] not in done][:n]
    print(len(muts), "sites;", len(order), "to run", flush=True)
    lock, it = threading.Lock(), iter(order)

    def work(w):
        base = f"/tmp/mut/{w}"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree("/repo/scripts", base + "/scripts")
        shutil.copytree(HERE, base + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            f, name, j, ln, kind, checks = m
            shutil.rmtree(base + "/src", ignore_errors=True)
            shutil.copytree(SRC, base + "/src", ignore=shutil.ignore_patterns("__pycache__"))
            d = build(f, name, j, base + "/src")
            if d is None:
                continue
            t0, killed, log = time.time(), None, {}
            for c in checks:
                tmp = base + "/tmp"
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                env = dict(os.environ, VERIF_SRC=base + "/src", PYTHONPATH=base + "/src:" + base + "/verif", VERIF_FAILFAST="1", VERIF_JOBS=str(max(1, 8 // workers)), VERIF_SHOW="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                           VERIF_SCRATCH=tmp, TMPDIR=tmp, HOME=tmp, MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "mc.main", c], cwd=tmp, env=env, capture_output=True, text=True, timeout=600)
                    rc, txt = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = 9, ""
                sig = re.search(r"sig=(\S+)", txt)
                log[c] = [rc, sig.group(1) if sig else txt[-200:] if rc not in (0, 1) else ""]
                if rc == 1:
                    killed = c
                    break
            with lock, open(out, "a") as o:
                o.write(json.dumps(dict(file=f, func=name, j=j, line=ln, kind=kind, killed=killed, log=log, diff=d, t=round(time.time() - t0, 1))) + "\n")

    th = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in th]
    [t.join() for t in th]


if __name__ == "__main__":
    main()
