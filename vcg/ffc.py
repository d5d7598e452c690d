"""Contracts of the field element operators (include/ff.hpp)."""
import numpy as np
import term as tm
from term import T
from sym import Ptr, PIte
import npeval

Q = 12289


def rd(X, S, a):
    """ff_t operand: by reference or by value"""
    if a.__class__ in (Ptr, PIte):
        return X.load(S, a, 2, "i", 16)
    return a


def canon(X, S, v, what):
    X.oblige("pre", tm.ult(16, v, Q), S, what + ": canonical operand")


def R(op, *a):
    if all(x.__class__ is int for x in a):
        if op == "ffadd": return (a[0] + a[1]) % Q
        if op == "ffsub": return (a[0] - a[1]) % Q
        if op == "ffneg": return -a[0] % Q
        if op == "ffmul": return a[0] * a[1] % Q
        if op == "ffinv": return pow(a[0], Q - 2, Q)
    if op in ("ffadd", "ffmul"):
        a = tuple(sorted(a, key=lambda x: (0, x) if x.__class__ is int else (1, x.id)))
    t = tm.mk(op, 16, *a)
    return tm.refine(t, 0, Q - 1)


def binop(op):
    def h(X, S, args):
        a, b = rd(X, S, args[0]), rd(X, S, args[1])
        canon(X, S, a, op); canon(X, S, b, op)
        return R(op, a, b)
    return h


def compound(op):
    def h(X, S, args):
        a, b = rd(X, S, args[0]), rd(X, S, args[1])
        canon(X, S, a, op); canon(X, S, b, op)
        X.store(S, args[0], 2, R(op, a, b))
        return args[0]
    return h


def unop(op):
    def h(X, S, args):
        a = rd(X, S, args[0])
        canon(X, S, a, op)
        return R(op, a)
    return h


def minus(X, S, args):
    return binop("ffsub")(X, S, args) if len(args) == 2 else unop("ffneg")(X, S, args)


def div(X, S, args):
    a, b = rd(X, S, args[0]), rd(X, S, args[1])
    canon(X, S, a, "ffdiv"); canon(X, S, b, "ffdiv")
    return R("ffmul", a, R("ffinv", b))


P = r"^ff::ff_t::"
ADD = (P + r"operator\+\(", binop("ffadd"))
MINUS = (P + r"operator-\(", minus)
NEG = (P + r"operator-\(\)", unop("ffneg"))
MUL = (P + r"operator\*\(", binop("ffmul"))
ADDTO = (P + r"operator\+=\(", compound("ffadd"))
SUBTO = (P + r"operator-=\(", compound("ffsub"))
MULTO = (P + r"operator\*=\(", compound("ffmul"))
INV = (P + r"inv\(", unop("ffinv"))
DIV = (P + r"operator/\(", div)
ALL = [ADD, MINUS, MUL, ADDTO, MULTO, INV, DIV]

# numpy semantics of the contract terms
INVT = np.array([pow(x, Q - 2, Q) for x in range(Q)], dtype=np.uint64)
q = np.uint64(Q)
npeval.HOOK.update({
    "ffadd": lambda t, g: (g(t.a[0], 16) + g(t.a[1], 16)) % q,
    "ffsub": lambda t, g: (g(t.a[0], 16) + q - g(t.a[1], 16)) % q,
    "ffneg": lambda t, g: (q - g(t.a[0], 16)) % q,
    "ffmul": lambda t, g: (g(t.a[0], 16) * g(t.a[1], 16)) % q,
    "ffinv": lambda t, g: INVT[g(t.a[0], 16)],
})
