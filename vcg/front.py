"""Extraction: compile a driver TU of /verif/harness against /repo/include to
LLVM IR (clang -O0, then opt -passes=sroa) and parse it.  Nothing is edited by
hand: the verified text is the compiler's own rendering of the code in /repo.
Dropped by the extraction: exception landing pads (-fno-exceptions), lifetime
markers, names of comments/macros; the sha3 submodule (absent here) is replaced
by declarations only."""
import os, subprocess, tempfile, shutil, hashlib, atexit, sys
import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vcg.")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


CLANG = ["clang++-18", "-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
         "-fno-exceptions", "-w", "-DVERIF_SYMBOLIC"]


# loops tested at their top are entered after a copy of the test (so that a loop cut at its head is left from its end)
ROTATE = "sroa,loop-simplify,loop-rotate,sroa,instsimplify"

# complex multiplication and division by their algebraic formulas (no NaN recovery branches)
REAL = ("-fcx-limited-range",)


def module(tu, defs=(), flags=(), passes="sroa"):
    """IR module of harness/<tu>.cpp"""
    d = tmpdir()
    tag = hashlib.md5((tu + "|" + "|".join(defs) + "|".join(flags) + passes).encode()).hexdigest()[:8]
    ll, l2 = "%s/%s.%s.ll" % (d, tu, tag), "%s/%s.%s.s.ll" % (d, tu, tag)
    src = "%s/harness/%s.cpp" % (VERIF, tu)
    cmd = CLANG + ["-D" + x for x in defs] + list(flags) + ["-I", VERIF + "/shim", "-I", REPO + "/include", "-S", "-emit-llvm", src, "-o", ll]
    rc, out, err = run(cmd)
    if rc:
        raise BuildError("clang failed on %s:\n%s" % (src, err[-3000:]))
    rc, out, err = run(["opt-18", "-passes=" + passes, "-S", ll, "-o", l2])
    if rc:
        raise BuildError("opt failed: " + err[-1000:])
    return ir.Module(open(l2).read())


_inl = {}


def inlined(tu, keep="^w_", defs=(), flags=(), opaque=None):
    """the same module with every function it defines inlined into the entry points (names matching keep)
    before stack slots become values: a helper or lambda that works on its caller's variables by reference
    is then read as part of the caller.  opaque: demangled names left as calls (they have contracts)"""
    import re
    key = (tu, keep, defs, flags, opaque)
    if key in _inl:
        return _inl[key]
    m = module(tu, defs, flags)
    names = [f[1:].strip('"') for f in m._bodies if not re.search(keep, f[1:]) and not (opaque and re.search(opaque, m.dem.get(f, f)))]
    d = tmpdir()
    tag = hashlib.md5((tu + "|" + "|".join(defs) + "|".join(flags) + "sroa").encode()).hexdigest()[:8]
    ll, l2 = "%s/%s.%s.ll" % (d, tu, tag), "%s/%s.%s.i.ll" % (d, tu, tag)
    cmd = ["opt-18", "-enable-noalias-to-md-conversion=false", "-passes=forceattrs,always-inline,sroa", "-S", ll, "-o", l2]
    for n in names:
        cmd += ["-force-remove-attribute=%s:noinline" % n, "-force-attribute=%s:alwaysinline" % n]
    rc, out, err = run(cmd)
    if rc:
        raise BuildError("opt failed: " + err[-1000:])
    _inl[key] = r = ir.Module(open(l2).read())
    return r


def source_id():
    h = hashlib.sha256()
    inc = REPO + "/include"
    for f in sorted(os.listdir(inc)):
        with open(os.path.join(inc, f), "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:16]
