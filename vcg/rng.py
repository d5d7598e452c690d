"""Contract of prng_t: an arbitrary byte stream, read consecutively.
Ghost variable "rng" of the state is the number of bytes read so far (a term)."""
import term as tm
from ir import Unsupported
from sym import Ptr


def byte(pos):
    """pos-th byte of the stream; pos concrete or a 64-bit term"""
    if pos.__class__ is int:
        return tm.sym("rnd[%d]" % pos, 8)
    return tm.mk("select", 8, tm.mk("arrsym", tm.A, "rnd", 8), pos)


def read(X, S, a):
    rng, p, n = a
    if n.__class__ is not int:
        raise Unsupported("prng read of symbolic length")
    pos = S.ghost.get("rng", 0)
    for i in range(n):
        X.store(S, Ptr(p.o, tm.add(64, p.off, i)), 1, byte(tm.add(64, pos, i)))
    S.ghost["rng"] = tm.add(64, pos, n)


READ = (r"^prng::prng_t::read\(", read)
ALL = [READ]
