"""SMT-LIB 2 printer and solver driver (z3 5.3.2, z3 4.8.12, cvc5 1.1.2)."""
import subprocess, tempfile, os, re, time
from concurrent.futures import ThreadPoolExecutor
import term as tm
from term import T, F, Z, A

STATS = {"queries": 0, "time": 0.0}
_lock = __import__("threading").Lock()


def sort(t):
    if t.w == 1:
        return "Bool"
    if t.w > 0:
        return "(_ BitVec %d)" % t.w
    if t.w == F:
        return "FP"
    if t.w == Z:
        return "Int"
    if t.w == A:
        return "(Array (_ BitVec 64) %s)" % ("(_ BitVec %d)" % arr_w(t))
    raise ValueError(t.w)


def arr_w(t):
    while True:
        if t.op in ("arrsym", "constarr"):
            return t.a[1]
        t = t.a[0] if t.op in ("store", "shiftarr", "copyarr") else t.a[1]


def bv(v, w):
    if w == 1:
        return "true" if v else "false"
    return "(_ bv%d %d)" % (v & ((1 << w) - 1), w)


class Printer:
    """translates terms to define-funs; FP ops are uninterpreted"""

    def __init__(s):
        s.out = []
        s.done = {}
        s.ufs = {}
        s.uses_fp = False

    def ref(s, x, w):
        if x.__class__ is int or x.__class__ is bool:
            if w == Z:
                return str(x) if x >= 0 else "(- %d)" % -x
            return bv(x, w)
        if isinstance(x, float):
            return s.fconst(x)
        return s.done[x.id]

    def fconst(s, x):
        import struct
        s.need_fp()
        h = struct.pack(">d", x).hex()
        n = "fk_" + h
        if n not in s.ufs:
            s.ufs[n] = 1
            s.out.append("(declare-const %s FP)" % n)
        return n

    def need_fp(s):
        if not s.uses_fp:
            s.uses_fp = True
            s.out.insert(0, "(declare-sort FP 0)")

    def uf(s, name, args, res):
        k = (name, tuple(args), res)
        if k not in s.ufs:
            n = "uf_%s_%d" % (re.sub(r"\W", "_", name), len(s.ufs))
            s.ufs[k] = n
            s.out.append("(declare-fun %s (%s) %s)" % (n, " ".join(args), res))
        return s.ufs[k]

    def add(s, roots):
        for t in tm.subterms([r for r in roots if isinstance(r, T)]):
            if t.id in s.done:
                continue
            e = s.expr(t)
            if t.op in ("sym", "arrsym", "fsym"):
                s.done[t.id] = e
                continue
            n = "t%d" % t.id
            s.out.append("(define-fun %s () %s %s)" % (n, sort(t), e))
            s.done[t.id] = n
        return [s.ref(r, 1) for r in roots]

    def expr(s, t):
        op, a, w = t.op, t.a, t.w
        R = s.ref
        if op == "sym" or op == "arrsym" or op == "fsym":
            n = "|%s|" % a[0].replace("|", "!")
            if w == F:
                s.need_fp()
            s.out.append("(declare-const %s %s)" % (n, sort(t)))
            if w > 1:
                if t.lo > 0: s.out.append("(assert (bvuge %s %s))" % (n, bv(t.lo, w)))
                if t.hi < (1 << w) - 1: s.out.append("(assert (bvule %s %s))" % (n, bv(t.hi, w)))
                if t.slo > -(1 << (w - 1)): s.out.append("(assert (bvsge %s %s))" % (n, bv(t.slo, w)))
                if t.shi < (1 << (w - 1)) - 1: s.out.append("(assert (bvsle %s %s))" % (n, bv(t.shi, w)))
            return n
        B = {"add": "bvadd", "sub": "bvsub", "mul": "bvmul", "udiv": "bvudiv", "urem": "bvurem", "sdiv": "bvsdiv",
             "srem": "bvsrem", "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr", "and": "bvand", "or": "bvor", "xor": "bvxor"}
        if w == F:
            s.need_fp()
            if op == "ite":
                return "(ite %s %s %s)" % (R(a[0], 1), R(a[1], F), R(a[2], F))
            return s.appl(op, a, "FP", t)
        if w == Z:
            if op == "ite":
                return "(ite %s %s %s)" % (R(a[0], 1), R(a[1], Z), R(a[2], Z))
            if op in ("zadd", "zsub", "zmul"):
                return "(%s %s %s)" % ({"zadd": "+", "zsub": "-", "zmul": "*"}[op], R(a[0], Z), R(a[1], Z))
            return s.appl(op, a, "Int", t)
        if w == A:
            if op == "store":
                return "(store %s %s %s)" % (R(a[0], A), R(a[1], 64), R(a[2], arr_w(t)))
            if op == "ite":
                return "(ite %s %s %s)" % (R(a[0], 1), R(a[1], A), R(a[2], A))
            if op == "copyarr":
                d, do, b, bo, n, es = a
                return "(lambda ((i!0 (_ BitVec 64))) (ite (and (bvuge i!0 %s) (bvult i!0 %s)) (select %s (bvadd i!0 %s)) (select %s i!0)))" % (
                    bv(do, 64), bv(do + n, 64), R(b, A), bv(bo - do, 64), R(d, A))
            if op == "shiftarr":
                return "(lambda ((i!0 (_ BitVec 64))) (select %s (bvadd i!0 %s)))" % (R(a[0], A), R(a[1], 64))
            if op == "constarr":
                return "((as const %s) %s)" % (sort(t), bv(a[0], a[1]))
        if op in B and w > 1:
            return "(%s %s %s)" % (B[op], R(a[0], w), R(a[1], w))
        if w == 1 and op in ("and", "or", "xor", "add", "mul", "sub"):
            o = {"and": "and", "or": "or", "xor": "xor", "add": "xor", "sub": "xor", "mul": "and"}[op]
            return "(%s %s %s)" % (o, R(a[0], 1), R(a[1], 1))
        if op == "not":
            return "(not %s)" % R(a[0], 1)
        if op == "ite":
            return "(ite %s %s %s)" % (R(a[0], 1), R(a[1], w), R(a[2], w))
        if op in ("eq", "ult", "slt"):
            ww = next((x.w for x in a if isinstance(x, T)), 64)
            o = {"eq": "=", "ult": "bvult", "slt": "bvslt"}[op]
            return "(%s %s %s)" % (o, R(a[0], ww), R(a[1], ww))
        if op in ("zle", "zlt", "zeq"):
            return "(%s %s %s)" % ({"zle": "<=", "zlt": "<", "zeq": "="}[op], R(a[0], Z), R(a[1], Z))
        if op == "zext":
            w0 = a[0].w
            if w0 == 1:
                return "(ite %s %s %s)" % (R(a[0], 1), bv(1, w), bv(0, w))
            return "((_ zero_extend %d) %s)" % (w - w0, R(a[0], w0))
        if op == "sext":
            w0 = a[0].w
            if w0 == 1:
                return "(ite %s %s %s)" % (R(a[0], 1), bv((1 << w) - 1, w), bv(0, w))
            return "((_ sign_extend %d) %s)" % (w - w0, R(a[0], w0))
        if op == "trunc":
            if w == 1:
                return "(= ((_ extract 0 0) %s) #b1)" % R(a[0], a[0].w)
            return "((_ extract %d 0) %s)" % (w - 1, R(a[0], a[0].w))
        if op == "select":
            return "(select %s %s)" % (R(a[0], A), R(a[1], 64))
        if op in ("ctlz", "cttz", "ctpop"):
            x = R(a[0], w)
            if op == "ctpop":
                r = bv(0, w)
                for i in range(w):
                    r = "(bvadd %s ((_ zero_extend %d) ((_ extract %d %d) %s)))" % (r, w - 1, i, i, x)
                return r
            r = bv(w, w)
            for i in (range(w) if op == "ctlz" else range(w - 1, -1, -1)):
                v = w - 1 - i if op == "ctlz" else i
                r = "(ite (= ((_ extract %d %d) %s) #b1) %s %s)" % (i, i, x, bv(v, w), r)
            return r
        return s.appl(op, a, sort(t), t)

    def appl(s, op, a, res, t):
        args, refs, name = [], [], op
        for x in a:
            if isinstance(x, T):
                args.append(sort(x)); refs.append(s.ref(x, x.w))
            elif isinstance(x, float):
                args.append("FP"); refs.append(s.fconst(x))
            else:
                name += "_" + str(x)
        f = s.uf(name, args, res)
        return "(%s %s)" % (f, " ".join(refs)) if refs else f


SOLVERS = {
    "z3": ["z3-new", "-smt2"],
    "z3-4.8": ["z3", "-smt2"],
    "cvc5": ["cvc5", "--lang=smt2", "--incremental"],
}


def run_solver(text, solver="z3", timeout=60):
    d = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    d.write(text)
    d.close()
    t0 = time.time()
    try:
        cmd = list(SOLVERS[solver])
        if solver.startswith("z3"):
            cmd.append("-T:%d" % timeout)
        else:
            cmd.append("--tlimit=%d" % (timeout * 1000))
        cmd.append(d.name)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 20)
            out = r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            out = "timeout"
    finally:
        os.unlink(d.name)
        with _lock:
            STATS["queries"] += 1
            STATS["time"] += time.time() - t0
    return out


def query(asserts, goal=None, solver="z3", timeout=60, extra="", model=True, syms=()):
    """validity of (and asserts) => goal.  returns (status, model dict)"""
    p = Printer()
    roots = [x for x in asserts if x.__class__ is not int]
    if any(x.__class__ is int and not x for x in asserts):
        return "unsat", {}
    g = goal
    refs = p.add(roots + ([g] if isinstance(g, T) else []))
    lines = list(p.out)
    for r in refs[: len(roots)]:
        lines.append("(assert %s)" % r)
    if g is not None:
        if isinstance(g, T):
            lines.append("(assert (not %s))" % refs[-1])
        elif g:
            return "unsat", {}
    if extra:
        lines.append(extra)
    lines.append("(check-sat)")
    hd = "(set-option :produce-models true)\n(set-logic ALL)\n"
    if model:
        sy = [t for t in tm.subterms([r for r in roots + [g] if isinstance(r, T)]) if t.op == "sym"]
        if sy and len(sy) < 4000:
            lines.append("(get-value (%s))" % " ".join("|%s|" % t.a[0] for t in sy))
    out = run_solver(hd + "\n".join(lines) + "\n", solver, timeout)
    m = re.match(r"\s*(unsat|sat|unknown|timeout)", out)
    st = m.group(1) if m else "error"
    md = {}
    if st == "sat":
        for n, v in re.findall(r"\(\|([^|]+)\| (#x[0-9a-f]+|#b[01]+|true|false|\(- \d+\)|\d+|\(_ bv\d+ \d+\))\)", out):
            md[n] = parse_val(v)
    if st == "error":
        md["error"] = out[:400]
    return st, md


def parse_val(v):
    if v.startswith("#x"): return int(v[2:], 16)
    if v.startswith("#b"): return int(v[2:], 2)
    if v == "true": return 1
    if v == "false": return 0
    if v.startswith("(_ bv"): return int(v[5:].split()[0])
    if v.startswith("(-"): return -int(v[2:-1])
    return int(v)


def pmap(f, items, workers=8):
    items = list(items)
    if len(items) <= 1:
        return [f(x) for x in items]
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, items))
