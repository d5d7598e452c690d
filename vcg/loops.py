"""Loop contracts for loops whose trip count depends on the input.

A loop that is left on an input-dependent condition is cut at its header: the
header is executed once from an arbitrary state satisfying the invariant (t
iterations done, t symbolic), each back edge must re-establish it for t+1.
Which variables and objects the loop modifies is determined by execution (never
assumed).  Invariants come from the Spec objects of the check; equalities of a
header variable with a ghost expression, ranges and differences between header
variables are inferred (a candidate that is not inductive is dropped and the
proof restarted, so only inductive facts are ever assumed)."""
import os, sys
import term as tm, smt
from term import T, F
from ir import Unsupported
from sym import Ptr, PIte, Pending, force, ToolLimit, short
from check import Refuted, Undecided


class Restart(Exception):
    pass


# mine candidate invariants from the conditions under which the loop is repeated (loops tested at
# their end, loops run by a flag); used when the proof without them does not go through
MINE = False


def attempts(*gos):
    """the first of several ways to conduct a proof that succeeds; the first one's failure is reported"""
    def go(acc):
        import check
        global MINE
        first = None
        old = MINE
        for mine, g in gos:
            a = check.Acc()
            MINE = mine
            try:
                g(a)
                acc.merge(a)
                return
            except (Refuted, Undecided, Unsupported, ToolLimit, check.sym.PathDead) as e:
                first = first or e
                if os.environ.get('VCG_TRACE'): print('  attempt failed:', str(e)[:300], file=sys.stderr)
            finally:
                MINE = old
        raise first
    return go


class Spec:
    """contract of a loop; override"""
    name = "loop"
    ranges = []          # [(lo, hi)] tried in order for variables without a form

    def forms(s, c):
        """[(label, width or None, f(t, S))]"""
        return []

    def conds(s, c, S, E, t):
        """[(label, term, optional)] must hold at every arrival at the header"""
        return []

    def header(s, c, S, E):
        """ghost updates / axioms on the arbitrary header state"""

    def back(s, c, S, E):
        """extra obligations at a back edge: [(label, term)]"""
        return []

    def ghost(s, c, k, t):
        """f(t) for ghost variable k, or None to havoc"""
        return None


class Info:
    def __init__(s):
        s.mod = {}
        s.dropped = set()
        s.spec = 0
        s.fail = None
        s.good = False
        s.conv = {}
        s.cands = {}


class Ctx:
    pass


class Cutter:
    def __init__(s, acc, specs, maxsym=0, timeout=30, outer=False, maxrestart=60):
        s.acc, s.specs, s.maxsym, s.timeout = acc, specs, maxsym, timeout
        s.cut = {}
        s.outer = outer     # loops around a cut loop are cut as well
        s.n = 0
        s.restarts = 0
        s.maxrestart = maxrestart
        s.memo = {}
        s.proved = {}

    # ------------------------------------------------------------------ driver
    def run(s, go):
        """go(hook installer) runs the whole function; restarted until stable"""
        while True:
            s.n = 0
            s.ctx = {}
            s.proved = {}
            try:
                r = go(s)
            except Restart as e:
                s.restarts += 1
                if os.environ.get('VCG_TRACE'): print('  restart:', e, file=sys.stderr)
                if s.restarts > s.maxrestart:
                    raise Undecided("loop invariants do not stabilise: %s" % e)
                continue
            for k in s.proved:
                s.acc.ok("z3", s.proved[k], kind=k)
            return r

    def install(s, X):
        X.loop_hook = s.hook

    def valid(s, pc, g, timeout=None):
        if g.__class__ is int:
            return bool(g)
        key = (tuple(x.id if x.__class__ is T else x for x in pc), g.id)
        r = s.memo.get(key)
        if r is None:
            st, md = smt.query(list(pc), g, timeout=timeout or s.timeout)
            if st not in ("sat", "unsat"):
                st, md = smt.query(list(pc), g, solver="cvc5", timeout=timeout or s.timeout)
            r = s.memo[key] = (st, md)
            s.last = md
        s.lastst, s.last = r
        return r[0] == "unsat"

    def reset(s, cut=False):
        """hypotheses changed: candidates get another chance"""
        for i in s.cut.values():
            if cut:
                i.mod, i.conv, i.dropped = {}, {}, set()
            i.dropped = {d for d in i.dropped if d[0] == "unmod"}

    def count(s, k):
        s.proved[k] = s.proved.get(k, 0) + 1

    # ------------------------------------------------------------------ hook
    def hook(s, X, kind, fn, C, loop, S, E, n):
        key = (fn.name, loop)
        info = s.cut.get(key)
        if info is None:
            if kind == "back" and n > s.maxsym and key in X.symexit:
                todo = [(fn.name, l) for l in C.chain[C.header[loop]] if (fn.name, l) not in s.cut and l != loop] if s.outer else []
                # enclosing loops first: inside a cut loop the inner one may have a constant bound
                s.cut[todo[0] if todo else key] = Info()
                s.reset(True)
                raise Restart("cut " + short(X.mod.dem.get(fn.name, fn.name)))
            return None
        if kind == "enter":
            return s.enter(X, fn, C, loop, S, E, info, key)
        return s.back(X, fn, C, loop, S, E, info, key)

    def next_spec(s, info, why, definite=None):
        if info.spec == 0 or info.fail is None:
            info.fail = info.fail or (why, definite)
        info.spec += 1
        info.dropped = set()
        if info.spec >= len(s.specs):
            w, d = info.fail
            if d:
                raise Refuted(w, None, output=str(d)[:3000])
            raise Undecided(w)
        raise Restart(why)

    def enter(s, X, fn, C, loop, S, E, info, key):
        spec = s.specs[info.spec]
        c = Ctx()
        c.X, c.fn, c.C, c.loop, c.info, c.key, c.spec = X, fn, C, loop, info, key, spec
        s.n += 1
        c.name = "%s@%d" % (spec.name, s.n)
        for oid, es in info.conv.items():
            o = S.mem.get(oid)
            if o is not None and o.arr is None:
                X.to_array(S, o, es)
        c.entryS, c.entryE = S.fork(), list(E)
        c.t = tm.sym("t:" + c.name, 64, 0, 1 << 40)
        c.phis = [(idx, ty, C.names[idx]) for _, idx, ty in C.phis[loop]]
        c.form, c.entry, c.role, c.rangev, c.anyrole = {}, {}, {}, {}, set()
        forms = spec.forms(c)
        later = []
        for idx, ty, nm in c.phis:
            v = E[idx]
            isp = False
            if v.__class__ is Pending:
                v = force(v, ty.w)
            if v.__class__ is Ptr:
                c.entry[idx] = v
                isp, off, w = True, v.off, 64
            elif ty.k == "i":
                c.entry[idx] = v
                off, w = v, ty.w
            else:
                if ty.k == "d":
                    c.entry[idx] = v
                    E[idx] = tm.mk("fsym", F, "h:%s:%s" % (c.name, nm))
                    c.form[idx] = ("havoc", None)
                    continue
                raise Unsupported("loop variable of type " + ty.k)
            new = None
            if ("unmod", idx) not in info.dropped:
                c.form[idx] = ("unmod", None)
                continue
            fs = []
            for label, fw, f in [("same", None, None)] + list(forms):
                if label == "same":
                    if (idx, label) not in info.dropped:
                        fs.append((label, (lambda o: lambda t, S: o)(off), True))
                    continue
                if fw is not None and fw != w or (idx, label) in info.dropped:
                    continue
                f0 = f(0, c.entryS)
                e = tm.eq(w, tm.trunc(w, f0, 64) if w < 64 else f0, off)
                if s.valid(S.pc, e):
                    s.count("invariant")
                    fs.append((label, f, False))
                    c.anyrole.add(label)
                    if not isp:
                        c.role.setdefault(label, idx)
            if fs:
                c.form[idx] = (fs[0][0], fs)
                later.append((idx, isp, v, w, fs))
                new = 0
            if new is None:
                for lo, hi in list(spec.ranges) + [(0, (1 << w) - 1)]:
                    if hi >= 1 << w or (idx, (lo, hi)) in info.dropped:
                        continue
                    if s.valid(S.pc, tm.and_(1, tm.not_(tm.ult(w, off, lo)), tm.not_(tm.ult(w, hi, off)))):
                        new = tm.sym("h:%s:%s:%d" % (c.name, nm, idx), w, lo, hi)
                        c.form[idx] = (("range", lo, hi), None)
                        c.rangev[idx] = off
                        break
            E[idx] = Ptr(v.o, new) if isp else new
        # entry conditions
        for label, g, opt in s.allconds(c, c.entryS, c.entryE, 0):
            if label in info.dropped:
                continue
            if not s.valid(S.pc, g):
                if opt:
                    info.dropped.add(label)
                    continue
                s.next_spec(info, "invariant '%s' of the loop in %s does not hold on entry" % (label, short(X.mod.dem[fn.name])), s.last if s.lastst == "sat" else None)
            s.count("invariant")
        for oid, mode in info.mod.items():
            if oid == "ghost":
                continue
            if oid in S.mem:
                s.havoc(c, S, oid, mode)
        for k in info.mod.get("ghost", ()):
            g = spec.ghost(c, k, c.t)
            if g is None:
                g = tm.sym("h:%s:ghost:%s" % (c.name, k), 64)
            else:
                g0 = spec.ghost(c, k, 0)
                e0 = S.ghost.get(k, 0)
                if g0 is not None and not s.valid(S.pc, tm.eq(64, g0, e0)):
                    s.next_spec(info, "ghost '%s' does not hold on entry" % k)
            S.ghost[k] = g
        for idx, isp, v, w, fs in later:
            ns = [tm.trunc(w, f(c.t, S), 64) if w < 64 and not raw else f(c.t, S) for _, f, raw in fs]
            E[idx] = Ptr(v.o, ns[0]) if isp else ns[0]
            for n in ns[1:]:
                S.assume(tm.eq(w, ns[0], n))
        spec.header(c, S, E)
        for label, g, opt in s.allconds(c, S, E, c.t):
            if label not in info.dropped:
                S.assume(g)
        c.H, c.HE = S.fork(), list(E)
        s.ctx[key] = c
        S.ghost["cut%s" % (key,)] = c.t
        its = []
        return [(S, E, loop, s.its(C, loop, E, X))]

    def its(s, C, loop, E, X):
        return tuple([0] * len(C.chain[loop]))

    def allconds(s, c, S, E, t):
        r = list(c.spec.conds(c, S, E, t))
        for lb, (g, ph) in c.info.cands.items():
            if lb not in c.info.dropped:
                m = {}
                for idx, p in ph.items():
                    v = s.num(force(E[idx], s.w(c, idx)))
                    m[p.id] = v
                r.append((lb, tm.subst([g], m)[0], True))
        rv = list(c.rangev.items())
        for i in range(len(rv)):
            for j in range(i):
                (a, ea), (b, eb) = rv[i], rv[j]
                lb = ("diff", a, b)
                if lb in c.info.dropped:
                    continue
                xa, xb = s.num(E[a]), s.num(E[b])
                w = min(s.w(c, a), s.w(c, b))
                tr = lambda x, q: tm.trunc(w, x, s.w(c, q)) if s.w(c, q) > w else x
                g = tm.eq(w, tm.sub(w, tr(xa, a), tr(xb, b)), tm.sub(w, tr(ea, a), tr(eb, b)))
                r.append((lb, g, True))
        return r

    def mine(s, c, S, E):
        """facts about the loop variables that held when the iteration was left towards the header"""
        old = {x.id for x in c.H.pc if x.__class__ is T}
        ph, m = {}, {}
        flags = []
        for idx, ty, nm in c.phis:
            if c.form[idx][0] in ("unmod", "havoc"):
                continue
            w = s.w(c, idx)
            v, h = s.num(force(E[idx], w)), s.num(c.HE[idx])
            p = tm.sym("@phi:%d:%d" % (idx, w), w)
            if v.__class__ is T:
                m.setdefault(v.id, p)
                ph[p.id] = (idx, p)
                if w in (1, 8):
                    flags.append((p, v, w))
                if h.__class__ is T:
                    d = tm.sub(w, v, h)
                    if d.__class__ is int:
                        m.setdefault(h.id, tm.sub(w, p, d))
        outer = {x.id for x in tm.subterms([y for y in list(c.entryS.pc) + [s.num(v) for v in c.entryE] if y.__class__ is T])}
        fresh = []

        def split(g):
            if g.op == "and" and g.w == 1:
                for x in g.a:
                    if x.__class__ is T: yield from split(x)
            else:
                yield g
        goals = [y for x in S.pc if x.__class__ is T and x.id not in old for y in split(x)]
        # a flag holds the condition: outermost value replaced, its definition rewritten over the other variables
        for p, v, w in flags:
            if v.a and any(x.__class__ is T for x in v.a):
                m2 = {k: q for k, q in m.items() if k != v.id}
                goals.append(("flag", p, v, w, m2))
        for g in goals:
            if g.__class__ is tuple:
                _, p, v, w, m2 = g
                g2 = tm.eq(w, p, tm.subst([v], m2)[0])
            else:
                g2 = tm.subst([g], m)[0]
            if g2.__class__ is not T:
                continue
            use, ok = {}, True
            st, seen = [g2], set()
            while st:
                x = st.pop()
                if x.__class__ is not T or x.id in seen or x.id in outer:
                    continue
                seen.add(x.id)
                st.extend(x.a)
                if x.op == "sym":
                    if x.id in ph:
                        use[ph[x.id][0]] = ph[x.id][1]
                    elif x.a[0][:2] in ("h:", "t:"):
                        ok = False
                elif x.op not in MINED:
                    ok = False
            if ok and use:
                lb = ("mined", g2.id)
                if lb not in c.info.cands:
                    c.info.cands[lb] = (g2, use)
                    fresh.append(lb)
        return fresh

    def num(s, v):
        return v.off if v.__class__ is Ptr else v

    def w(s, c, idx):
        return 64 if c.entry[idx].__class__ is Ptr else c.C.widths[idx]

    def havoc(s, c, S, oid, mode):
        o = S.w(oid)
        nm = "h:%s:%s.%d" % (c.name, o.name, oid)
        if mode == "arr":
            es = o.es or c.info.mod.get(("es", oid))
            if not es:
                raise Unsupported("havoc of %s" % o.name)
            o.es = es
            o.cells = {}
            o.lazy = None
            o.arr = tm.mk("arrsym", tm.A, nm, 8 * es)
            return
        ent = {k: v[0] for k, v in o.cells.items()}
        fl = {k for k, v in o.cells.items() if v[1].__class__ is float or v[1].__class__ is T and v[1].w == F}
        cells = c.info.mod.get(("cells", oid))
        o.arr = None
        o.lazy = None
        o.cells = {k: (n, tm.mk("fsym", F, "%s+%d" % (nm, k)) if f else tm.sym("%s+%d" % (nm, k), 8 * n)) for k, n, f in cells}

    def back(s, X, fn, C, loop, S, E, info, key):
        c = s.ctx[key]
        spec = c.spec
        if S.ghost.get("cut%s" % (key,)) is not c.t:
            raise Unsupported("loop entered on several paths")
        # what changed
        ch = False
        for idx, ty, nm in c.phis:
            if c.form[idx][0] == "unmod":
                a, b = E[idx], c.HE[idx]
                if a.__class__ is Pending: a = force(a, ty.w)
                if not (a is b or a == b):
                    info.dropped.add(("unmod", idx))
                    ch = True
        for oid, o in S.mem.items():
            h = c.H.mem.get(oid)
            if h is None or h is o:
                continue
            if h.arr is None and o.arr is not None and oid not in info.conv and info.mod.get(oid) != "arr":
                info.conv[oid] = o.es
                ch = True
                continue
            m = changed(h, o)
            if m:
                old = info.mod.get(oid)
                if m == "arr":
                    if old != "arr":
                        info.mod[oid] = "arr"
                        info.mod[("es", oid)] = o.es
                        ch = True
                else:
                    cl = {(k, v[0], v[1].__class__ is float or v[1].__class__ is T and v[1].w == F) for k, v in o.cells.items()}
                    oc = info.mod.get(("cells", oid))
                    if old is None or oc is None or not cl <= oc:
                        if old != "arr":
                            info.mod[oid] = "lazy"
                            info.mod[("cells", oid)] = cl | (oc or set())
                            ch = True
        for k in set(S.ghost) | set(c.H.ghost):
            if k.startswith("cut") or k in spec.__dict__.get("ghost_ok", ()):
                continue
            a, b = S.ghost.get(k), c.H.ghost.get(k)
            if not (a is b or a.__class__ is int and a == b):
                g = info.mod.setdefault("ghost", [])
                if k not in g:
                    g.append(k)
                    ch = True
        if ch:
            s.reset()
            seen = False
            for k, x in s.ctx.items():      # loops entered later start over
                if seen:
                    x.info.mod, x.info.conv = {}, {}
                    x.info.dropped = set()
                seen = seen or x is c
            raise Restart("modified set")
        if MINE and s.mine(c, S, E):
            raise Restart("candidates")
        t1 = tm.add(64, c.t, 1)
        drops, why = [], None
        for idx, ty, nm in c.phis:
            label, f = c.form[idx]
            if label in ("unmod", "havoc"):
                continue
            v = E[idx]
            if v.__class__ is Pending: v = force(v, ty.w)
            if v.__class__ is Ptr:
                if v.o != c.entry[idx].o:
                    raise Unsupported("pointer moves between objects")
                v = v.off
            w = s.w(c, idx)
            if f is not None:
                for lb, g, raw in f:
                    ft = g(t1, S)
                    if not s.valid(S.pc, tm.eq(w, tm.trunc(w, ft, 64) if w < 64 and not raw else ft, v)):
                        drops.append((idx, lb))
                        why = why or "%s != %s %s %s" % (nm, lb, s.lastst, str(s.last)[:1500] if os.environ.get("VCG_TRACE") else "")
            else:
                _, lo, hi = label
                if (lo, hi) != (0, (1 << w) - 1) and not s.valid(S.pc, tm.and_(1, tm.not_(tm.ult(w, v, lo)), tm.not_(tm.ult(w, hi, v)))):
                    drops.append((idx, (lo, hi)))
                    why = why or "%s not in %d..%d" % (nm, lo, hi)
            s.count("invariant")
        if drops:
            info.dropped |= set(drops)
            raise Restart("%s %s" % (drops, why))
        for k in info.mod.get("ghost", ()):
            g = spec.ghost(c, k, t1)
            if g is not None:
                if not s.valid(S.pc, tm.eq(64, g, S.ghost[k])):
                    s.next_spec(info, "ghost '%s' is not preserved" % k)
                s.count("invariant")
        for label, g, opt in s.allconds(c, S, E, t1):
            if label in info.dropped:
                continue
            if not s.valid(S.pc, g):
                if opt:
                    drops.append(label)
                    continue
                s.next_spec(info, "invariant '%s' of the loop in %s is not preserved" % (label, short(X.mod.dem[fn.name])),
                            s.last if s.lastst == "sat" else None)
            s.count("invariant")
        if drops:
            info.dropped |= set(drops)
            raise Restart("dropped %s" % (drops,))
        for label, g in spec.back(c, S, E):
            if not s.valid(S.pc, g):
                s.next_spec(info, "'%s' fails at the end of an iteration of the loop in %s" % (label, short(X.mod.dem[fn.name])),
                            s.last if s.lastst == "sat" else None)
            s.count("invariant")
        info.good = True
        return []


MINED = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "not", "zext", "sext", "trunc", "ite", "eq", "ult", "slt", "urem", "udiv"}


def changed(h, o):
    if o.arr is not None or h.arr is not None:
        return "arr" if o.arr is not h.arr else None
    for k, v in o.cells.items():
        u = h.cells.get(k)
        if u is v:
            continue
        if u is None:
            if h.lazy is not None:
                lz = h.lazy(k)
                if lz is not None and lz[0] == v[0] and lz[1] is v[1]:
                    continue
            return "lazy"
        if u[0] != v[0] or not (u[1] is v[1] or u[1].__class__ is int and u[1] == v[1] or u[1].__class__ is Ptr and u[1] == v[1]):
            return "lazy"
    return None
