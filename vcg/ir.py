"""Parser for the textual LLVM 18 IR that clang emits for /repo's sources.

Only the instruction subset clang produces at -O0 (after opt's sroa) is
accepted; anything else raises Unsupported, which a check reports as an error
of the check (never as a violation)."""
import re, struct, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "fs", "packed", "_size", "_al", "_offs")

    def __init__(s, k, w=0, n=0, el=None, fs=None, packed=False):
        s.k, s.w, s.n, s.el, s.fs, s.packed = k, w, n, el, fs, packed
        s._size = s._al = s._offs = None

    def align(s):
        if s._al is None:
            if s.k == "i":
                b = max(1, (s.w + 7) // 8)
                a = 1
                while a < b:
                    a *= 2
                s._al = min(a, 16)
            elif s.k in ("d", "p"):
                s._al = 8
            elif s.k == "f":
                s._al = 4
            elif s.k == "x":
                s._al = 16
            elif s.k == "a":
                s._al = s.el.align()
            elif s.k == "s":
                s._al = 1 if s.packed else max([f.align() for f in s.fs] or [1])
            else:
                raise Unsupported("align of " + s.k)
        return s._al

    def size(s):
        if s._size is None:
            if s.k == "i":
                b = max(1, (s.w + 7) // 8)
                a = s.align()
                s._size = (b + a - 1) // a * a
            elif s.k in ("d", "p"):
                s._size = 8
            elif s.k == "f":
                s._size = 4
            elif s.k == "x":
                s._size = 16
            elif s.k == "a":
                s._size = s.n * s.el.size()
            elif s.k == "s":
                s.offsets()
            else:
                raise Unsupported("size of " + s.k)
        return s._size

    def offsets(s):
        if s._offs is None:
            o, offs = 0, []
            for f in s.fs:
                if not s.packed:
                    a = f.align()
                    o = (o + a - 1) // a * a
                offs.append(o)
                o += f.size()
            a = s.align()
            s._size = (o + a - 1) // a * a
            s._offs = offs
        return s._offs


I = {w: Ty("i", w) for w in (1, 8, 16, 32, 64, 128)}
DBL, FLT, PTR, VOID, X80 = Ty("d"), Ty("f"), Ty("p"), Ty("v"), Ty("x")

TOK = re.compile(
    r'\s*(%"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|@"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"[^"]*"'
    r"|%[\w.$-]+|@[\w.$-]+|\$[\w.$-]+|![\w.]*|#\d+|\.\.\.|-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|[\w.]+|[\[\]{}<>(),=*:|!])"
)


def tokenize(line):
    out, i, n = [], 0, len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            if line[i:].strip() == "":
                break
            raise Unsupported("token: " + line[i : i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


class P:
    """token stream"""

    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def accept(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if s.next() != x:
            raise Unsupported("expected %s in %s" % (x, " ".join(s.t)[:200]))

    def type(s):
        t = s.next()
        if t == "ptr":
            return PTR
        if t == "void":
            return VOID
        if t == "double":
            return DBL
        if t == "float":
            return FLT
        if t == "x86_fp80":
            return X80
        if t[0] == "i" and t[1:].isdigit():
            w = int(t[1:])
            if w not in I:
                I[w] = Ty("i", w)
            return I[w]
        if t == "[":
            n = int(s.next())
            s.expect("x")
            el = s.type()
            s.expect("]")
            return Ty("a", n=n, el=el)
        if t == "{":
            fs = []
            if not s.accept("}"):
                while True:
                    fs.append(s.type())
                    if s.accept("}"):
                        break
                    s.expect(",")
            return Ty("s", fs=fs)
        if t == "<" and s.peek() == "{":
            s.next()
            fs = []
            while True:
                fs.append(s.type())
                if s.accept("}"):
                    break
                s.expect(",")
            s.expect(">")
            return Ty("s", fs=fs, packed=True)
        if t[0] == "%":
            return s.m.named(t)
        if t in ("metadata", "label", "token"):
            return Ty(t)
        raise Unsupported("type " + t)

    ATTRS = {
        "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "zeroext", "signext",
        "returned", "immarg", "inreg", "readnone", "nofree", "dead_on_unwind", "writable", "noreturn", "inbounds", "nofpclass",
    }

    def attrs(s):
        sret = None
        while True:
            t = s.peek()
            if t in s.ATTRS:
                s.next()
            elif t in ("align",):
                s.next()
                if s.accept("("):
                    s.next(); s.expect(")")
                else:
                    s.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "memory", "captures"):
                s.next()
                d = 0
                while True:
                    x = s.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
            else:
                return

    # operand of known type -> ('l', idx/name) | ('c', value)
    def value(s, ty):
        t = s.next()
        if t[0] == "%":
            return ("l", t)
        if t[0] == "@":
            return ("g", t)
        if t in ("true", "false"):
            return ("c", 1 if t == "true" else 0)
        if t == "null":
            return ("c", 0)
        if t in ("undef", "poison"):
            return ("u", ty)
        if t == "zeroinitializer":
            return ("z", ty)
        if t == "getelementptr":
            s.accept("inbounds")
            s.expect("(")
            bty = s.type()
            s.expect(",")
            pt = s.type()
            base = s.value(pt)
            idx = []
            while s.accept(","):
                s.accept("inrange")
                it = s.type()
                idx.append((it, s.value(it)))
            s.expect(")")
            return ("gep", bty, base, idx)
        if t == "{" or (t == "<" and s.peek() == "{"):
            if t == "<":
                s.next()
            vs = []
            if not s.accept("}"):
                while True:
                    ft = s.type()
                    vs.append((ft, s.value(ft)))
                    if s.accept("}"):
                        break
                    s.expect(",")
            if t == "<":
                s.expect(">")
            return ("agg", vs)
        if t == "[":
            vs = []
            if not s.accept("]"):
                while True:
                    ft = s.type()
                    vs.append((ft, s.value(ft)))
                    if s.accept("]"):
                        break
                    s.expect(",")
            return ("agg", vs)
        if t.startswith('c"'):
            b = bytearray()
            q, i = t[2:-1], 0
            while i < len(q):
                if q[i] == "\\":
                    if q[i + 1] == "\\":
                        b.append(92); i += 2
                    else:
                        b.append(int(q[i + 1 : i + 3], 16)); i += 3
                else:
                    b += q[i].encode(); i += 1
            return ("agg", [(I[8], ("c", x)) for x in b])
        if ty.k == "d":
            if t.startswith("0x"):
                return ("c", struct.unpack("<d", struct.pack("<Q", int(t, 16)))[0])
            return ("c", float(t))
        if ty.k in ("f", "x"):
            return ("x", t)
        if ty.k == "i":
            return ("c", int(t) & ((1 << ty.w) - 1))
        raise Unsupported("value %s of type %s" % (t, ty.k))

    def tv(s):
        ty = s.type()
        s.attrs()
        return ty, s.value(ty)


class Instr:
    __slots__ = ("op", "res", "a", "line")

    def __init__(s, op, res, a, line):
        s.op, s.res, s.a, s.line = op, res, a, line


class Block:
    __slots__ = ("name", "ins", "succ", "idx")

    def __init__(s, name):
        s.name, s.ins, s.succ = name, [], []


class Func:
    def __init__(s, name):
        s.name = name
        s.params, s.ptys, s.blocks, s.bmap = [], [], [], {}
        s.rty = None
        s.compiled = None


class Module:
    def __init__(s, text):
        s.types, s.tdefs = {}, {}
        s.globals, s.funcs, s.decls = {}, {}, {}
        lines = text.split("\n")
        i = 0
        gl = []
        bodies = []
        while i < len(lines):
            L = lines[i]
            if L.startswith("%") and " = type " in L:
                nm, rest = L.split(" = type ", 1)
                s.tdefs[nm] = rest
            elif L.startswith("@"):
                gl.append(L)
            elif L.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                bodies.append((L, lines[i + 1 : j]))
                i = j
            i += 1
        for L in gl:
            s._global(L)
        s._bodies = {}
        for h, b in bodies:
            m = re.search(r'(@"(?:[^"])*"|@[\w.$-]+)\(', h)
            s._bodies[m.group(1)] = (h, b)
        names = sorted(s._bodies)
        s.dem = {}
        alln = names + sorted(set(re.findall(r"^declare .*?(@[\w.$-]+)\(", text, re.M)))
        raw = [unquote(n) for n in alln]
        out = subprocess.run(["c++filt"], input="\n".join(raw), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(alln, out):
            s.dem[n] = d

    def named(s, n):
        if n not in s.types:
            d = s.tdefs.get(n)
            if d is None:
                raise Unsupported("type " + n)
            if d.strip() == "opaque":
                s.types[n] = Ty("opaque")
            else:
                s.types[n] = P(tokenize(d), s).type()
        return s.types[n]

    def _global(s, L):
        t = tokenize(L)
        p = P(t, s)
        nm = p.next()
        p.expect("=")
        const = False
        ext = False
        while True:
            x = p.next()
            if x in ("constant", "global"):
                const = x == "constant"
                break
            if x in ("external", "extern_weak"):
                ext = True
            if x in ("alias", "comdat"):
                return
            if x == "(":
                pass
        ty = p.type()
        init = None
        if not ext:
            try:
                init = p.value(ty)
            except Unsupported:
                init = None
        s.globals[nm] = (ty, init, const)

    def func(s, name):
        f = s.funcs.get(name)
        if f is None:
            if name not in s._bodies:
                return None
            f = s.funcs[name] = self_parse(s, name, *s._bodies[name])
        return f

    def find(s, pat):
        """names of defined functions whose demangled signature matches"""
        r = re.compile(pat)
        return [n for n in s._bodies if r.search(s.dem[n])]


def unquote(n):
    n = n[1:]
    if n.startswith('"'):
        b = bytearray()
        q, i = n[1:-1], 0
        while i < len(q):
            if q[i] == "\\":
                b.append(int(q[i + 1 : i + 3], 16)); i += 3
            else:
                b += q[i].encode(); i += 1
        return b.decode()
    return n


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


def parse_callee(p, op):
    while p.peek() in ("fastcc", "ccc", "tail", "musttail", "notail") or p.peek() in FLAGS:
        p.next()
    p.attrs()
    rty = p.type()
    if p.peek() == "(":  # function type
        d = 0
        while True:
            x = p.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    break
    callee = p.next()
    if callee == "asm":
        raise Unsupported("inline asm")
    p.expect("(")
    args = []
    if not p.accept(")"):
        while True:
            ty = p.type()
            if ty.k == "metadata":
                raise Unsupported("metadata arg")
            p.attrs()
            args.append((ty, p.value(ty)))
            if p.accept(")"):
                break
            p.expect(",")
    return rty, callee, args


def self_parse(mod, name, header, body):
    f = Func(name)
    p = P(tokenize(header), mod)
    # define [stuff] retty @name(params) ...
    toks = p.t
    k = toks.index(name)
    # return type: parse backwards is messy; find the type start by scanning
    p.i = 1
    while True:
        save = p.i
        t = p.peek()
        if t in ("internal", "linkonce_odr", "dso_local", "weak_odr", "hidden", "private", "available_externally", "external", "unnamed_addr", "local_unnamed_addr", "weak"):
            p.next(); continue
        a = p.i
        p.attrs()
        if p.i != a:
            continue
        break
    f.rty = p.type()
    p.attrs()
    p.expect(name)
    p.expect("(")
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                p.expect(")")
                break
            ty = p.type()
            p.attrs()
            f.ptys.append(ty)
            f.params.append(p.next() if p.peek()[0] == "%" else "%%anon%d" % len(f.params))
            if p.accept(")"):
                break
            p.expect(",")
    cur = None
    lines = body
    i = 0
    while i < len(lines):
        L = lines[i]
        i += 1
        if not L.strip() or L.lstrip().startswith(";"):
            continue
        if not L.startswith(" "):
            m = re.match(r'^("(?:[^"])*"|[\w.$-]+):', L)
            cur = Block("%" + m.group(1))
            cur.idx = len(f.blocks)
            f.blocks.append(cur)
            f.bmap[cur.name] = cur
            continue
        if cur is None:
            cur = Block("%entry0")
            cur.idx = 0
            f.blocks.append(cur)
            f.bmap[cur.name] = cur
        # join multi-line (switch, invoke, landingpad)
        if " switch " in L and L.rstrip().endswith("["):
            while True:
                L += " " + lines[i].strip()
                i += 1
                if lines[i - 1].strip().startswith("]"):
                    break
        elif re.search(r"\binvoke\b", L) and i < len(lines) and lines[i].strip().startswith("to label"):
            L += " " + lines[i].strip()
            i += 1
        elif " landingpad " in L:
            while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)", lines[i]):
                i += 1
        cur.ins.append(parse_instr(mod, L))
    for b in f.blocks:
        t = b.ins[-1]
        if t.op == "br":
            b.succ = [t.a[0]]
        elif t.op == "cbr":
            b.succ = [t.a[1], t.a[2]]
        elif t.op == "switch":
            b.succ = [t.a[2]] + [x[1] for x in t.a[3]]
        elif t.op == "invoke":
            b.succ = [t.a[3]]
        else:
            b.succ = []
    return f


def parse_instr(mod, L):
    L0 = L.split(", !", 1)[0] if ", !" in L else L
    p = P(tokenize(L0), mod)
    res = None
    if p.peek(1) == "=":
        res = p.next()
        p.next()
    op = p.next()
    flags = set()
    while p.peek() in FLAGS and op not in ("call", "invoke"):
        flags.add(p.next())
    if op in BIN or op in FBIN:
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        return Instr(op, res, (ty, a, p.value(ty), frozenset(flags)), L)
    if op == "fneg":
        ty = p.type()
        return Instr(op, res, (ty, p.value(ty)), L)
    if op in CAST:
        ty = p.type()
        a = p.value(ty)
        p.expect("to")
        return Instr(op, res, (ty, a, p.type()), L)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        return Instr(op, res, (pred, ty, a, p.value(ty)), L)
    if op == "select":
        ct, c = p.tv()
        p.expect(",")
        ty, a = p.tv()
        p.expect(",")
        _, b = p.tv()
        return Instr(op, res, (c, ty, a, b), L)
    if op == "phi":
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            inc.append((v, p.next()))
            p.expect("]")
            if not p.accept(","):
                break
        return Instr(op, res, (ty, inc), L)
    if op == "getelementptr":
        bty = p.type()
        p.expect(",")
        _, base = p.tv()
        idx = []
        while p.accept(","):
            idx.append(p.tv())
        return Instr("gep", res, (bty, base, idx), L)
    if op == "load":
        p.accept("volatile")
        ty = p.type()
        p.expect(",")
        _, a = p.tv()
        return Instr(op, res, (ty, a), L)
    if op == "store":
        p.accept("volatile")
        ty, v = p.tv()
        p.expect(",")
        _, a = p.tv()
        return Instr(op, res, (ty, v, a), L)
    if op == "alloca":
        ty = p.type()
        n = ("c", 1)
        if p.accept(","):
            if p.peek() != "align":
                nt, n = p.tv()
        return Instr(op, res, (ty, n), L)
    if op == "br":
        if p.accept("label"):
            return Instr("br", None, (p.next(),), L)
        ty, c = p.tv()
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return Instr("cbr", None, (c, a, p.next()), L)
    if op == "switch":
        ty, v = p.tv()
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct, cv = p.tv()
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], p.next()))
        return Instr(op, None, (ty, v, d, cases), L)
    if op == "ret":
        ty = p.type()
        if ty.k == "v":
            return Instr(op, None, (ty, None), L)
        return Instr(op, None, (ty, p.value(ty)), L)
    if op in ("call", "invoke") or op in ("tail", "notail", "musttail"):
        if op in ("tail", "notail", "musttail"):
            p.next()
            op = "call"
        rty, callee, args = parse_callee(p, op)
        if op == "call":
            return Instr(op, res, (rty, callee, args), L)
        while p.peek() != "to":
            p.next()
        p.next()
        p.expect("label")
        n = p.next()
        return Instr(op, res, (rty, callee, args, n), L)
    if op == "extractvalue":
        ty, v = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Instr(op, res, (ty, v, idx), L)
    if op == "insertvalue":
        ty, v = p.tv()
        p.expect(",")
        t2, v2 = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Instr(op, res, (ty, v, t2, v2, idx), L)
    if op == "landingpad":
        return Instr(op, res, (), L)
    if op == "resume":
        return Instr(op, None, (), L)
    if op == "unreachable":
        return Instr(op, None, (), L)
    if op == "freeze":
        ty, v = p.tv()
        return Instr(op, res, (ty, v), L)
    raise Unsupported("instruction " + L.strip()[:120])
