"""Contract of the (absent) SHAKE256 submodule: an incremental XOF whose output
is an arbitrary byte stream determined by the absorbed bytes.
ghost "sha"     bytes squeezed so far (term)
ghost "shalast" length of the last read
ghost "abs"     absorbed (object, offset, length) pieces, contiguous ones joined
ghost "shast"   0 absorbing, 1 finalised"""
import term as tm
from ir import Unsupported
from sym import Ptr

SHA = lambda: tm.mk("arrsym", tm.A, "sha", 8)


def byte(pos):
    return tm.mk("select", 8, SHA(), pos if pos.__class__ is tm.T else tm.add(64, pos, 0))


def ctor(X, S, a):
    if "shast" in S.ghost:
        raise Unsupported("two hash objects")
    S.ghost["sha"] = 0
    S.ghost["shalast"] = 0
    S.ghost["abs"] = ()
    S.ghost["shast"] = 0


def absorb(X, S, a):
    h, p, n = a
    X.oblige("hash-state", 1 if S.ghost.get("shast") == 0 else 0, S, "absorb after finalize")
    if n == 0:
        return
    if p.__class__ is not Ptr:
        raise Unsupported("absorb from %r" % (p,))
    o = X.obj(S, p, "absorb")
    if o.size is not None:
        X.oblige("in-bounds", tm.and_(1, tm.not_(tm.ult(64, o.size, p.off)), tm.not_(tm.ult(64, tm.sub(64, o.size, p.off), n))), S, "absorb from " + o.name)
    pc = list(S.ghost["abs"])
    if pc and pc[-1][0] == p.o and tm.add(64, pc[-1][1], pc[-1][2]) is tm.add(64, p.off, 0):
        pc[-1] = (p.o, pc[-1][1], tm.add(64, pc[-1][2], n))
    else:
        pc.append((p.o, p.off, n))
    S.ghost["abs"] = tuple(pc)


def finalize(X, S, a):
    X.oblige("hash-state", 1 if S.ghost.get("shast") == 0 else 0, S, "finalize twice")
    S.ghost["shast"] = 1


def read(X, S, a):
    h, p, n = a
    X.oblige("hash-state", 1 if S.ghost.get("shast") == 1 else 0, S, "read before finalize")
    if n.__class__ is not int:
        raise Unsupported("hash read of symbolic length")
    pos = S.ghost["sha"]
    X.fill(S, p, n, SHA(), pos)
    S.ghost["sha"] = tm.add(64, pos, n)
    S.ghost["shalast"] = n


ALL = [(r"^shake256::shake256<true>::shake256\(", ctor), (r"^shake256::shake256<true>::absorb\(", absorb),
       (r"^shake256::shake256<true>::finalize\(", finalize), (r"^shake256::shake256<true>::read\(", read)]
