#!/usr/bin/env python3
"""Development aid: plants small syntactic changes in copies of gsapi and sees which checks notice.

mutate.py list                 counts of mutants per module
mutate.py run OUT [--n N] [--seed S] [--only MODULE[:FUNC]] [--jobs J]
Nothing here is used by the checks."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo/gsapi")
MODS = ["gspattern", "gsio", "midiio", "gsdescriptors", "gsextractors", "gsstyles", "gstransformers", "gsdataset", "bassmine", "gsutil", "gsdefs"]
PROPS = {"gsio": "C03 C04 C05 C06 C07", "midiio": "C02 C01 C05 C03", "gsdescriptors": "C21 C22 C23", "gsextractors": "C21",
         "gsstyles": "C24 C25 C26", "gstransformers": "C27 C28", "gsdataset": "C29", "bassmine": "C30 C31", "gsutil": "C32 C23",
         "gsdefs": "C32 C23 C04 C05 C03"}
FUNC = {"alignOnGrid": "C12", "applyLegato": "C14", "_perVoiceLegato": "C14", "copyWithoutEvents": "C07", "copy": "C07",
        "fillWithPreviousEvent": "C14", "fillWithSilences": "C10", "_fillListWithSilence": "C10", "getFilledWithSilences": "C10",
        "fromJSONDict": "C06", "findOriginPatternInParent": "C06", "toJSONDict": "C06", "generateViewpoint": "C20", "_computeViewpoint": "C20",
        "activeEventsAtTime": "C19", "getStartingEventsAtTime": "C19", "containsTime": "C19", "cutInSteps": "C19", "printASCIIGrid": "C19",
        "getIdenticalEvents": "C17", "patternFromTimeSlice": "C08", "getAllTags": "C15", "getAllPitches": "C15", "getPatternWithTags": "C15",
        "getPatternWithPitch": "C15", "getPatternWithoutTags": "C15", "quantize": "C13", "removeByTags": "C17", "removeEvent": "C17",
        "removeOverlapped": "C11", "splitInEqualLengthPatterns": "C09", "_handleEvent": "C09", "timeStretch": "C18", "transpose": "C18",
        "durationToBar": "C16", "durationToLastEvent": "C16", "lastNoteOff": "C16", "addEvent": "C16"}


def cmpflip(op):
    t = type(op)
    m = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
         ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
    return [c() for c in m.get(t, [])]


def quiet(node):
    s = ast.unparse(node)
    return "Log." in s[:40] or s.startswith("print(") or "logging" in s


def mutants(mod):
    path = os.path.join(SRC, mod + ".py")
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, text, kind, fn):
        a, b = span(n)
        if raw[a:b].decode() != text:
            out.append({"mod": mod, "fn": fn, "line": n.lineno, "kind": kind, "a": a, "b": b, "text": text, "old": raw[a:b].decode()})

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            return
        f = ".".join(fn)
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or quiet(n)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in cmpflip(n.ops[0]):
                add(n, "(" + ast.unparse(ast.Compare(n.left, [o], n.comparators)) + ")", "cmp", f)
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr,
                 ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift}.get(type(n.op))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, "(" + ast.unparse(ast.BinOp(n.left, m(), n.right)) + ")", "bin", f)
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            if not isinstance(n.value, (ast.List, ast.ListComp)):
                add(n, ast.unparse(ast.AugAssign(n.target, o, n.value)), "aug", f)
        if isinstance(n, ast.Constant) and f:
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const", f)
            elif isinstance(v, int):
                add(n, str(v + 1), "const", f)
                if v:
                    add(n, str(v - 1), "const", f)
            elif isinstance(v, float):
                add(n, repr(v * 2 or 1.0), "const", f)
        if isinstance(n, ast.BoolOp):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, "(" + ast.unparse(ast.BoolOp(o, n.values)) + ")", "bool", f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + ast.unparse(n.operand) + ")", "not", f)
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            add(n.test, "False", "cond", f)
            if isinstance(n, ast.If):
                add(n.test, "True", "cond", f)
        if isinstance(n, ast.IfExp):
            add(n, ast.unparse(n.body), "ifexp", f)
            add(n, ast.unparse(n.orelse), "ifexp", f)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Delete)) and fn:
            add(n, "pass", "del", f)
        if isinstance(n, ast.Call):
            s = ast.unparse(n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                add(n, ast.unparse(n.func.value), "alias", f)
            if s in ("copy.deepcopy", "sorted", "list", "int", "round", "set", "abs") and n.args:
                add(n, "(" + ast.unparse(n.args[0]) + ")", "unwrap", f)
            sw = {"min": "max", "max": "min", "math.floor": "math.ceil", "math.ceil": "math.floor", "any": "all", "all": "any"}.get(s)
            if sw:
                add(n.func, sw, "swap", f)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    for n in tree.body:
        walk(n, [])
    return raw, out


def props_for(m):
    if m["mod"] != "gspattern":
        return PROPS[m["mod"]].split()
    names = m["fn"].split(".")
    r = [FUNC[x] for x in reversed(names) if x in FUNC and not (x == "copy" and names[0] == "Event" and False)]
    if not r:
        r = ["C17", "C07", "C16", "C19"]
    return r + ["C33"]


def run(m, raw, scale, keep):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(SRC, d + "/gsapi", ignore=shutil.ignore_patterns("*$py.class", "*.pyc", "__pycache__"))
        code = raw[:m["a"]] + m["text"].encode() + raw[m["b"]:]
        try:
            compile(code, "x", "exec")
        except SyntaxError:
            return "syntax", None
        open("%s/gsapi/%s.py" % (d, m["mod"]), "wb").write(code)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_SHARDS="1")
        res = []
        for p in props_for(m):
            try:
                r = subprocess.run([sys.executable, "-B", VERIF + "/check.py", p, "--scale", str(scale)], cwd=VERIF, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                return "caught", p
            res.append((p, rc))
        return ("survived" if all(x[1] == 0 for x in res) else "noverdict"), res
    finally:
        shutil.rmtree(d, True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=0.2)
    a = ap.parse_args()
    raws, ms = {}, []
    for mod in MODS:
        raws[mod], x = mutants(mod)
        if a.cmd == "list":
            print(mod, len(x))
        ms += x
    if a.cmd == "list":
        print(len(ms))
        sys.exit()
    if a.only:
        ms = [m for m in ms if any(m["mod"] == o.split(":")[0] and (":" not in o or o.split(":")[1] in m["fn"].split(".")) for o in a.only)]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            j = json.loads(l)
            done.add((j["mod"], j["a"], j["text"]))
    ms = [m for m in ms if (m["mod"], m["a"], m["text"]) not in done]
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.n]
    with open(a.out, "a") as f, ThreadPoolExecutor(a.jobs) as ex:
        def one(m):
            r = run(m, raws[m["mod"]], a.scale, None)
            f.write(json.dumps(dict(m, result=r[0], by=r[1])) + "\n")
            f.flush()
        list(ex.map(one, ms))
