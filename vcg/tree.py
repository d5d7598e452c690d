"""Contracts of Gram matrix, LDL decomposition, ffLDL tree and normalisation."""
import random, re
import alg, term as tm
from alg import P, uv, reim, conj, cmul, cadd, csub, cdiv
from sym import Exec, State, Ptr
from check import Refuted, Undecided, U
from lib import discharge

HALF = alg.HALF
SIGMA = {512: 165.736617183, 1024: 168.388571447}


# ------------------------------------------------------------ definitions
def gram(B):
    """B: 4 vectors; B x B*"""
    b = B
    m = lambda x, y: [cmul(p, conj(q)) for p, q in zip(x, y)]
    s = lambda x, y: [cadd(p, q) for p, q in zip(x, y)]
    return [s(m(b[0], b[0]), m(b[1], b[1])), s(m(b[0], b[2]), m(b[1], b[3])),
            s(m(b[2], b[0]), m(b[3], b[1])), s(m(b[2], b[2]), m(b[3], b[3]))]


def ldl(G):
    """-> l10, d00, d11 for a self-adjoint matrix"""
    l = [cdiv(a, b) for a, b in zip(G[2], G[0])]
    d11 = [csub(c, cmul(cmul(x, conj(x)), a)) for c, x, a in zip(G[3], l, G[0])]
    return l, G[0], d11


def selfadj(G, what):
    for i in range(len(G[0])):
        if G[0][i][0] != G[0][i][1] or G[3][i][0] != G[3][i][1] or G[1][i] != conj(G[2][i]):
            raise Refuted(what + ": matrix passed down is not self-adjoint (index %d)" % i)


def ffldl(k, G, levels=None):
    """levels of the tree of a 2^k matrix: list of k+1 vectors of length 2^k (node j of level L at j*2^(k-L))"""
    l, d0, d1 = ldl(G)
    n = 1 << k
    if k == 1:
        return [l, [d0[0], d1[0]]]
    sub = []
    for d in (d0, d1):
        a, b = alg.split(k, d)
        sub.append(ffldl(k - 1, [a, b, [conj(x) for x in b], a]))
    return [l] + [x + y for x, y in zip(*sub)]


def flat(v):
    return [y for w in v for y in reim(w)]


def pair(vals):
    return [uv(vals[2 * i], vals[2 * i + 1]) for i in range(len(vals) // 2)]


def cut(v, n):
    return [v[i:i + n] for i in range(0, len(v), n)]


# ------------------------------------------------------------ contracts
def at(p, c):
    return Ptr(p.o, tm.add(64, p.off, 16 * c))


def ins(X, S, p, n):
    return [y for x in alg.ldc(X, S, p, n) for y in x]


def gram_contract(calls, n):
    def h(X, S, a):
        def f(v):
            return flat([x for r in gram(cut(pair(v), n)) for x in r])
        calls.new(X, S, f, ins(X, S, a[0], 4 * n), [(a[1], 4 * n)])
    return (r"^void keygen::compute_gram_matrix<%d(ul)?>\(" % n, h)


def ldl_contract(calls, n):
    def h(X, S, a):
        def f(v):
            G = cut(pair(v), n)
            selfadj(G, "ldl<%d>" % n)
            l, d0, d1 = ldl(G)
            return flat(l + d0 + d1)
        calls.new(X, S, f, ins(X, S, a[0], 4 * n), [(a[1], n), (a[2], n), (a[3], n)])
    return (r"^void falcon_tree::ldl<%d(ul)?>\(" % n, h)


def ffldl_contract(calls, n, l, H):
    k = n.bit_length() - 1

    def h(X, S, a):
        def f(v):
            G = cut(pair(v), n)
            selfadj(G, "ffldl<%d>" % n)
            return flat([x for lv in ffldl(k, G) for x in lv])
        calls.new(X, S, f, ins(X, S, a[0], 4 * n), [(at(a[1], m << H), n) for m in range(k + 1)])
    return (r"^void falcon_tree::ffldl<%d(ul)?, %d(ul)?, %d(ul)?>\(" % (n, l, H), h)


def norm_contract(E, calls, n, H):
    """E: list holding the evaluator (set before evaluation)"""
    def h(X, S, a):
        def f(v):
            r = []
            for i in range(n):
                r += [v[-1] * alg.inv(E[0].opaque("sqrt", [v[2 * i]])) % P, 0]
            return r
        p = at(a[0], H << H)
        calls.new(X, S, f, ins(X, S, p, n) + [a[1]], [(p, n)])
    return (r"^void falcon_tree::normalize_tree<%d(ul)?, 0(ul)?, %d(ul)?>\(" % (n, H), h)


def comp(l):
    return [(re.compile(p), f) for p, f in l]


def selfadj_matrix(rng, n):
    a = [alg.rnd(rng) for _ in range(n)]
    b = [alg.rnd(rng) for _ in range(n)]
    c = alg.crnd(rng, n)
    return [[(x, x) for x in a], [conj(x) for x in c], c, [(x, x) for x in b]]


def real_poly_fft(rng, k):
    c = [alg.rnd(rng) for _ in range(1 << k)]
    return alg.fft(k, [(x, x) for x in c])


def inputs(X, S, name, vecs):
    v = [x for r in vecs for x in r]
    return X.array_input(S, name, 2 * len(v), 8, tm.F, ro=True), v


# ------------------------------------------------------------ units
def u_gram(mod, n):
    def go(acc):
        X, S = Exec(mod), State()
        rng = random.Random("gram%d" % n)
        G = X.new_obj(S, 64 * n, "G")
        B = [alg.crnd(rng, n) for _ in range(4)]
        p, v = inputs(X, S, "B", B)
        X.run(mod.func("@w_gram%d" % n), [p, G], S)
        acc.take(X); discharge(acc, X)
        E = alg.Eval(None, alg.cleaf({"B": v}))
        alg.check_vec(acc, E, alg.ldc(X, S, G, 4 * n), [x for r in gram(B) for x in r], "compute_gram_matrix<%d>" % n)
    return go


def u_ldl(mod, n):
    def go(acc):
        X, S = Exec(mod), State()
        rng = random.Random("ldl%d" % n)
        G = selfadj_matrix(rng, n)
        p, v = inputs(X, S, "G", G)
        o = [X.new_obj(S, 16 * n, nm) for nm in ("l10", "d00", "d11")]
        X.run(mod.func("@w_ldl%d" % n), [p] + o, S)
        acc.take(X); discharge(acc, X)
        E = alg.Eval(None, alg.cleaf({"G": v}))
        for q, w, nm in zip(o, ldl(G), ("l10", "d00", "d11")):
            alg.check_vec(acc, E, alg.ldc(X, S, q, n), w, "ldl<%d>: %s" % (n, nm))
    return go


def tree_matrix(rng, k):
    """self-adjoint matrix as it occurs in the tree: transforms of real polynomials"""
    n = 1 << k
    B = [real_poly_fft(rng, k) for _ in range(4)]
    return gram(B)


def u_ffldl(mod, n, l, H):
    k = n.bit_length() - 1

    def go(acc):
        calls = alg.Calls()
        X, S = Exec(mod), State()
        C = [ldl_contract(calls, n)]
        if n > 2:
            C += [ffldl_contract(calls, n // 2, l + 1, H)]
        X.contracts = comp(C)
        rng = random.Random("ffldl%d" % n)
        G = tree_matrix(rng, k)
        p, v = inputs(X, S, "G", G)
        size = (k << H) + n
        T = X.new_obj(S, 16 * size, "T")
        X.run(mod.func("@w_ffldl_%d_%d" % (H, l)), [p, T], S)
        acc.take(X); discharge(acc, X)
        E = alg.Eval(calls, alg.cleaf({"G": v}))
        want = ffldl(k, G)
        o = S.mem[T.o]
        ok = {(m << H) + i for m in range(k + 1) for i in range(n)}
        for off in o.cells:
            if off // 16 not in ok:
                raise Refuted("ffldl<%d, %d, %d>: writes cell %d, outside its subtree" % (n, l, H, off // 16))
        for m in range(k + 1):
            got = alg.ldc(X, S, at(T, m << H), n)
            discharge(acc, X)
            alg.check_vec(acc, E, got, want[m], "ffldl<%d, %d, %d>: level %d" % (n, l, H, m))
    return go


def u_norm(mod, n):
    H = n.bit_length() - 1

    def go(acc):
        X, S = Exec(mod), State()
        rng = random.Random("norm%d" % n)
        size = (H + 1) << H
        T = X.array_input(S, "T", 2 * size, 8, tm.F)
        sg = tm.mk("fsym", tm.F, "sigma")
        X.run(mod.func("@w_norm%d" % n), [T, sg], S)
        acc.take(X); discharge(acc, X)
        v = alg.crnd(rng, size)
        sv = alg.rnd(rng)
        lf = alg.cleaf({"T": v})
        E = alg.Eval(None, lambda t: sv if t is sg else lf(t))
        want = v[: H << H] + [(lambda x: (x, x))(sv * alg.inv(E.opaque("sqrt", [reim(w)[0]])) % P) for w in v[H << H:]]
        alg.check_vec(acc, E, alg.ldc(X, S, T, size), want, "normalize_tree<%d>" % n)
    return go


def tree_contracts(calls, Eref, n):
    H = n.bit_length() - 1
    return [gram_contract(calls, n), ffldl_contract(calls, n, 0, H), norm_contract(Eref, calls, n, H)]


def treespec(E, n, B, sigma):
    k = n.bit_length() - 1
    lv = ffldl(k, gram(B))
    s = alg.const(sigma) if isinstance(sigma, float) else sigma
    lv[k] = [(lambda x: (x, x))(s * alg.inv(E.opaque("sqrt", [reim(w)[0]])) % P) for w in lv[k]]
    return [x for l in lv for x in l]


def u_tree(mod, n, inline=False):
    k = n.bit_length() - 1

    def go(acc):
        calls, Eref = alg.Calls(), [None]
        X, S = Exec(mod), State()
        if not inline:
            X.contracts = comp(tree_contracts(calls, Eref, n))
        rng = random.Random("tree%d" % n)
        B = [real_poly_fft(rng, k) for _ in range(4)]
        p, v = inputs(X, S, "B", B)
        size = (k + 1) << k
        T = X.new_obj(S, 16 * size, "T")
        X.run(mod.func("@w_tree%d" % n), [p, T], S)
        got = alg.ldc(X, S, T, size)
        acc.take(X); discharge(acc, X)
        E = Eref[0] = alg.Eval(calls, alg.cleaf({"B": v}))
        alg.check_vec(acc, E, got, treespec(E, n, B, SIGMA[n]), "compute_falcon_tree<%d>" % n)
    return go


def either(units, whole):
    """all of units (contract by contract), or, where that fails, the whole function without intermediate contracts"""
    def go(acc):
        import check
        try:
            a = check.Acc()
            for u in units:
                u.run(a)
            acc.merge(a)
        except (Refuted, Undecided, check.Unsupported, check.sym.ToolLimit, check.sym.PathDead) as e:
            acc.notes.append("contract by contract: %s; executed as a whole" % str(e)[:200])
            whole(acc)
    return go


# ------------------------------------------------------------ keys
def ileaf(vals):
    d = {"%s[%d]" % (nm, i): x for nm, l in vals.items() for i, x in enumerate(l)}
    return lambda t: d.get(t.a[0]) if t.op in ("sym", "fsym") else None


def ntru_vals(rng, k):
    """random f, g, F, G with f G - g F = q"""
    n = 1 << k
    r = lambda: [alg.rnd(rng) for _ in range(n)]
    f, g, G = r(), r(), r()
    A = [alg.fft(k, [(x, x) for x in v]) for v in (f, g, G)]
    q = (alg.Q, alg.Q)
    F_ = [cdiv(csub(cmul(a, c), q), b) for a, b, c in zip(*A)]
    F = [x[0] for x in alg.ifft(k, F_)]
    return {"f": f, "g": g, "F": F, "G": G}


def basis(k, v):
    """transform of [[g, -f], [G, -F]]"""
    e = lambda l, s: alg.fft(k, [(s * x % P, s * x % P) for x in l])
    return [e(v["g"], 1), e(v["f"], -1), e(v["G"], 1), e(v["F"], -1)]


RANGE = {"f": 128, "g": 128, "F": 128, "G": 1 << 24}


def iarr(X, S, nm, n, ro=True, w=32):
    """integer polynomial: what a stored key can hold (f, g, F: 8 bits; G with a wide margin)"""
    b = RANGE[nm]
    return X.array_input(S, nm, n, w // 8, w, lo=-b, hi=b - 1, ro=ro)


def u_recG(mod, n):
    k = n.bit_length() - 1

    def go(acc):
        calls = alg.Calls()
        X, S = Exec(mod), State()
        X.contracts = comp(calls.contracts([k]))
        a = [iarr(X, S, nm, n) for nm in "fgF"]
        G = X.new_obj(S, 4 * n, "G")
        X.run(mod.func("@w_recG%d" % n), a + [G], S)
        acc.take(X); discharge(acc, X)
        v = ntru_vals(random.Random("recG%d" % n), k)
        E = alg.Eval(calls, ileaf({x: v[x] for x in "fgF"}))
        E.integers = set(v["G"])
        for i in range(n):
            t = X.load(S, Ptr(G.o, 4 * i), 4, "i", 32)
            if t.__class__ is int or E.bv(t, True) != v["G"][i]:
                raise Refuted("recompute_G<%d>: coefficient %d is not that of G, rounded to nearest" % (n, i))
        acc.ok("identity-testing", n)
    return go


def u_matB(mod, n):
    k = n.bit_length() - 1

    def go(acc):
        calls = alg.Calls()
        X, S = Exec(mod), State()
        X.contracts = comp(calls.contracts([k]))
        a = [iarr(X, S, nm, n) for nm in "fgFG"]
        B = X.new_obj(S, 64 * n, "B")
        X.run(mod.func("@w_matB%d" % n), a + [B], S)
        acc.take(X); discharge(acc, X)
        rng = random.Random("matB%d" % n)
        v = {x: [alg.rnd(rng) for _ in range(n)] for x in "fgFG"}
        E = alg.Eval(calls, ileaf(v))
        alg.check_vec(acc, E, alg.ldc(X, S, B, 4 * n), [x for r in basis(k, v) for x in r], "compute_matrix_B<%d>" % n)
    return go


def u_keygen(mod, n):
    """keygen::keygen: basis, tree and public key come from the solver's f, g, F, G"""
    k = n.bit_length() - 1
    from entry import put, holds, isym

    def go(acc):
        calls, Eref = alg.Calls(), [None]
        X, S = Exec(mod), State()
        rp = X.new_obj(S, None, "rng")

        def gen(X, S, a):
            for p, nm in zip(a, "fgFG"):
                put(X, S, p, 4, n, lambda i, nm=nm: tm.sym("%s[%d]" % (nm, i), 32, -128, 127))
            if not (a[4].__class__ is Ptr and a[4].o == rp.o):
                X.oblige("precondition", 0, S, "the given generator is used")

        def pub(X, S, a):
            for p, nm in zip(a, "fg"):
                holds(X, S, p, 4, n, lambda i, nm=nm: tm.sym("%s[%d]" % (nm, i), 32, -128, 127), "the public key is derived from " + nm)
            put(X, S, a[2], 2, n, lambda i: tm.sym("h[%d]" % i, 16, 0, 12288))
        X.contracts = comp([(r"^void ntru_gen::ntru_gen<%d(ul)?>\(" % n, gen), (r"^void keygen::compute_public_key<%d(ul)?>\(" % n, pub)]
                           + calls.contracts([k]) + tree_contracts(calls, Eref, n))
        size = (k + 1) << k
        B, T, h = X.new_obj(S, 64 * n, "B"), X.new_obj(S, 16 * size, "T"), X.new_obj(S, 2 * n, "h")
        sg = tm.mk("fsym", tm.F, "sigma")
        X.run(mod.func("@w_kg%d" % n), [B, T, h, sg, rp], S)
        acc.take(X); discharge(acc, X)
        rng = random.Random("kg%d" % n)
        v = {x: [alg.rnd(rng) for _ in range(n)] for x in "fgFG"}
        sv = alg.rnd(rng)
        lf = ileaf(v)
        E = Eref[0] = alg.Eval(calls, lambda t: sv if t is sg else lf(t))
        b = basis(k, v)
        alg.check_vec(acc, E, alg.ldc(X, S, B, 4 * n), [x for r in b for x in r], "keygen<%d>: basis" % n)
        alg.check_vec(acc, E, alg.ldc(X, S, T, size), treespec(E, n, b, sv), "keygen<%d>: tree" % n)
        for i in range(n):
            t = X.load(S, Ptr(h.o, 2 * i), 2, "i", 16)
            if t is not tm.sym("h[%d]" % i, 16, 0, 12288):
                raise Refuted("keygen<%d>: public key element %d is not the derived one" % (n, i))
        acc.ok("syntactic", n)
    return go
