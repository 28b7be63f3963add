"""development aid: python3 tools/mutate.py FILE[:FUNC,...] [--every N] [--start K] [--out LOG]

Makes small changes (operators, conditions, constants, statements left out) to the original lines of a file of /repo, one
at a time in a scratch copy; those that survive the repository's tests are put to the quick checks of the properties
concerned.  Writes one line per surviving change: caught by which check, or MISSED.
"""
import argparse, ast, concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V, PY = plant.V, plant.PY
FUNCS = {"lib/sldr/ldml.py": [
    ("serialize_xml _localisens _protect _nsprotectattribs _sortedattrs getorder add_namespace save_as _reverselocalns", "C01 C02 C08 C03"),
    ("update merge _minhashupdate __eq__ __hash__ _calc_hashes _analyse", "C07 C06 C02"), ("_distattributes", "C08 C07 C04 C06"),
    ("ReadMetadata ReadDTD procmodel procattrib elementDecl attlistDecl", "C02 C03 C04 C06"), ("ReadSupplementalData get_parent_locales", "C05"),
    ("__init__ doComment", "C01 C02 C08"), ("_copynode", "C08 C07 C05"), ("addnode _add_alt_leaf _find_best _promote change_draft _add_inserted_node alt get_draft draftnum", "C03 C04 C07 C08"),
    ("_unify_path _process_path ensure_path remove_path find findall _invertns _prepare_parent select", "C04 C03"), ("normalise keyel", "C02 C01 C08 C03"), ("as_xpath", "C08"),
    ("resolve_aliases", "C09"), ("add_silidentity", "C17"), ("flatten_collation doimport", "C10")],
  "lib/sldr/ldml_merge.py": [("difference overlay _overlay_child _overlay_external_resources flag_nonroots", "C06 C05 C08"), ("set pop remove _merge_leaf _align _merge_with_alts _merge_alts _add_alt merge clash_text clash_attrib __init__", "C07 C08"),
    ("getldml flattenlocale trimtag getscript getcollator", "C05 C10 C17 C06 C09")],
  "lib/sldr/collation.py": [("escape unescape char splitunescaped parse asICU _follows _inrulesorder sortKey getSortKey itemise head all_children expand sortkey __setitem__ _setSortKeys", "C14 C15 C13"),
    ("ducetSortKey stripzero cmpKey diffLevel lenKey readDucet add append __add__ cmp __lt__ __gt__ __eq__ __ge__ __le__ __iadd__ __ne__ copy __hash__", "C13 C14"), ("convertSimple _insertBefore getnext cmpKeys __init__", "C15 C14")],
  "lib/sldr/UnicodeSets.py": [("*", "C12 C11 C16")], "lib/sldr/ldml_exemplars.py": [("*", "C16")], "lib/sldr/sheet.py": [("*", "C18")], "lib/sldr/ducet.py": [("*", "C13")],
  "lib/sldr/py3xmlparser.py": [("*", "C01 C02")], "scripts/ldmlflatten": [("*", "C17")], "scripts/ldmlnormalize": [("*", "C17")], "scripts/ldmlmerge": [("*", "C17")], "scripts/cldrimport": [("*", "C17")], "scripts/sheetldml": [("*", "C18")]}


def props(file, fn):
    for names, ps in FUNCS[file]:
        if names == "*" or fn in names.split():
            return ps.split()
    return []


SECONDS = os.environ.get("MUT_SECONDS", "8")
CMP = {"Eq": "!=", "NotEq": "==", "Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in"}


def mutants(src):
    """(line, function, what, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    def put(n, t):
        s, e = span(n)
        return (b[:s] + t.encode() + b[e:]).decode()
    out = []

    def add(n, fn, what, t):
        if text(n) != t:
            out.append((n.lineno, n.end_lineno, fn, "%s -> %s" % (text(n)[:70], t[:70]), put(n, t)))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, fn, "", "%s %s %s" % (text(n.left), CMP[type(n.ops[0]).__name__], text(n.comparators[0])))
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) if not isinstance(v, (ast.BoolOp, ast.IfExp, ast.Lambda)) else "(" + text(v) + ")" for j, v in enumerate(n.values) if j != i]
                add(n, fn, "", (" and " if isinstance(n.op, ast.And) else " or ").join(rest))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, fn, "", "(" + text(n.operand) + ")")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) :
            add(n, fn, "", text(n.left) if not isinstance(n.op, ast.Sub) else "%s + %s" % (text(n.left), text(n.right)))
            if isinstance(n.op, ast.Add):
                add(n, fn, "", text(n.right))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, fn, "", str(n.value + 1))
            if n.value > 0:
                add(n, fn, "", str(n.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, fn, "", str(not n.value))
        if isinstance(n, ast.IfExp):
            add(n, fn, "", text(n.body))
            add(n, fn, "", text(n.orelse))
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            add(n.test, fn, "", "not (%s)" % text(n.test))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise)) and fn and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, fn, "", "pass")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, fn, "", "return None")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "set", "dict", "reversed") and len(n.args) == 1 and not n.keywords:
            add(n, fn, "", text(n.args[0]))
        if isinstance(n, ast.Call) and len(n.keywords) and isinstance(n.func, (ast.Attribute, ast.Name)):
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [text(q) if q.arg else "**" + text(q.value) for q in n.keywords if q is not k]
                    add(n, fn, "", "%s(%s)" % (text(n.func), ", ".join(rest)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "copy", "strip", "rstrip", "lstrip") and not n.args:
            add(n, fn, "", text(n.func.value))
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, "")
    return out


def one(job):
    file, (l0, l1, fn, what, new), ps = job
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp/x")
    try:
        try:
            compile(new, file, "exec")
        except SyntaxError:
            return "syntax"
        repo = w + "/repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        with open(os.path.join(repo, file), "w", encoding="utf-8") as f:
            f.write(new)
        try:
            if plant.stable(repo):
                return "tests"
        except Exception:
            return "tests"
        for p in ps:
            # a short look at each harness; what it misses is to be looked at with the whole check
            try:
                c = subprocess.run([PY, "mc/explore.py", p], cwd=V, env=dict(plant.ENV, MC_REPO=repo, MC_WORKERS="2", MC_SECONDS=SECONDS, MC_N="0"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return "timeout " + p
            for l in c.stdout.splitlines():
                m = re.match(r"(.*) states .* violations (\d+)$", l)
                if m and m.group(2) != "0" and not (p, m.group(1)) in (("C13", "table"), ("C17", "modes")):
                    return "caught %s %s" % (p, m.group(1))
            if c.returncode:
                return "error %s %d %s" % (p, c.returncode, (c.stdout + c.stderr)[-200:].replace("\n", " | "))
        return "MISSED"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("target")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--lanes", type=int, default=4)
    ap.add_argument("--out")
    a = ap.parse_args()
    file, _, fns = a.target.partition(":")
    src = open("/repo/" + file, encoding="utf-8").read()
    bl = subprocess.run(["git", "blame", "-s", "HEAD", "--", file], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
    orig = [l.startswith("^") for l in bl]
    jobs = []
    for m in mutants(src):
        ps = props(file, m[2])
        if fns and m[2] not in fns.split(","):
            continue
        if ps and all(orig[m[0] - 1:m[1]]):
            jobs.append((file, m, ps))
    jobs = jobs[a.start::a.every]
    out = open(a.out, "a") if a.out else sys.stdout
    print("#", a.target, len(jobs), file=out, flush=True)
    n = {}
    with cf.ThreadPoolExecutor(a.lanes) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1
            if r.split()[0] not in ("tests", "syntax"):
                print("%s | %s:%d %s | %s" % (r, file, j[1][0], j[1][2], j[1][3].replace("\n", " ")), file=out, flush=True)
    print("#", a.target, n, file=out, flush=True)
