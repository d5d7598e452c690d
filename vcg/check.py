"""Check runner: discharges every obligation of a property, decides the verdict,
replays on the real code, writes the evidence file."""
import os, sys, time, json, traceback, subprocess, multiprocessing, re, signal
import front, ir, sym, smt
from ir import Unsupported

VERIF = front.VERIF
PROVED, FAILED, UNDECIDED = "discharged", "failed", "undecided"


class Refuted(Exception):
    """an obligation is definitely false; carries a counterexample"""

    def __init__(s, what, cex=None, output=""):
        Exception.__init__(s, what)
        s.what, s.cex, s.output = what, cex, output


class Undecided(Exception):
    pass


class U:
    """one unit: the obligations of one function (instance) under contract"""

    def __init__(s, name, fn, run, bounded=False):
        s.name, s.fn, s.run, s.bounded = name, fn, run, bounded


class Acc:
    """what a unit reports"""

    def __init__(s):
        s.n = 0
        s.by = {}
        s.kinds = {}
        s.fns = {}
        s.contracts = {}
        s.assumptions = set()
        s.notes = []
        s.solver_time = 0.0
        s.queries = 0
        s.reach = 0

    def ok(s, backend, n=1, kind="post"):
        s.n += n
        s.by[backend] = s.by.get(backend, 0) + n
        s.kinds[kind] = s.kinds.get(kind, 0) + n

    def merge(s, a):
        s.n += a.n
        for d, e in ((s.by, a.by), (s.kinds, a.kinds), (s.fns, a.fns), (s.contracts, a.contracts)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        s.assumptions |= a.assumptions
        s.notes += a.notes

    def take(s, X):
        """account for what an executor did"""
        t = sum(X.trivial.values())
        if t:
            s.n += t
            s.by["intervals"] = s.by.get("intervals", 0) + t
            for k, v in X.trivial.items():
                s.kinds[k] = s.kinds.get(k, 0) + v
        for f, c in X.executed.items():
            d = X.mod.dem.get(f, f)
            s.fns[d] = s.fns.get(d, 0) + c
        for f, c in X.used.items():
            s.contracts[f] = s.contracts.get(f, 0) + c
        s.assumptions |= X.assumptions
        X.trivial = {}


_units = None


def _work(i):
    u = _units[i]
    t0 = time.time()
    acc = Acc()
    q0, st0 = smt.STATS["queries"], smt.STATS["time"]
    r = {"name": u.name, "fn": u.fn, "status": PROVED, "detail": "", "cex": None}
    try:
        u.run(acc)
        if acc.n == 0:
            r["status"], r["detail"] = UNDECIDED, "vacuous: no obligation was generated"
    except Refuted as e:
        r["status"], r["detail"], r["cex"] = FAILED, e.what + ("\n" + e.output if e.output else ""), e.cex
    except Undecided as e:
        r["status"], r["detail"] = UNDECIDED, str(e)
    except (Unsupported, sym.ToolLimit, sym.PathDead) as e:
        r["status"], r["detail"] = UNDECIDED, "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VCG_TRACE"):
            traceback.print_exc()
    except MemoryError:
        r["status"], r["detail"] = UNDECIDED, "out of memory"
    except Exception as e:
        r["status"], r["detail"] = UNDECIDED, "internal: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        if os.environ.get("VCG_TRACE"):
            traceback.print_exc()
    acc.solver_time += smt.STATS["time"] - st0
    acc.queries += smt.STATS["queries"] - q0
    r.update(n=acc.n, by=acc.by, kinds=acc.kinds, fns=acc.fns, contracts=acc.contracts,
             assumptions=sorted(acc.assumptions), notes=acc.notes, solver_time=acc.solver_time,
             queries=acc.queries, time=time.time() - t0, bounded=u.bounded)
    return r


def run_units(units, workers=8, limit=None):
    """each unit in its own forked process, hard time limit per unit"""
    global _units
    _units = units
    ctx = multiprocessing.get_context("fork")
    res = [None] * len(units)
    todo = list(range(len(units)))[::-1]
    live = {}
    bad_at = 0
    while todo or live:
        while todo and len(live) < workers:
            i = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        ready = multiprocessing.connection.wait([x[1] for x in live.values()], timeout=1.0)
        now = time.time()
        for i in list(live):
            p, a, t0 = live[i]
            if a in ready:
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = _bad(units[i], "worker died", now - t0)
                p.join()
                del live[i]
                if res[i]["status"] == FAILED and not bad_at:
                    bad_at = now      # the verdict is settled; do not wait long for the rest
                if os.environ.get("VCG_VERBOSE"):
                    r = res[i]
                    print("  [%s] %s %s n=%d %.1fs %s" % (time.strftime("%X"), r["status"], r["name"], r["n"], r["time"],
                                                     r["detail"][:600] if r["status"] != PROVED else ""), file=sys.stderr, flush=True)
            elif limit and (now - t0 > limit or now - t0 > 60 and bad_at and now - bad_at > 120):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
                p.join()
                res[i] = _bad(units[i], "time limit (%ds)" % (now - t0), now - t0)
                del live[i]
    return res


import multiprocessing.connection


def _child(i, conn):
    try:
        os.setpgid(0, 0)
    except Exception:
        pass
    try:
        conn.send(_work(i))
    finally:
        conn.close()
        os._exit(0)


def _bad(u, why, t):
    return dict(name=u.name, fn=u.fn, status=UNDECIDED, detail=why, cex=None, n=0, by={}, kinds={}, fns={}, contracts={},
                assumptions=[], notes=[], solver_time=0.0, queries=0, time=t, bounded=u.bounded)


TRUSTED = [
    "clang 18 (front end) and opt -passes=sroa preserve the meaning of the C++ in /repo/include",
    "the VC generator /verif/vcg (IR parser, symbolic executor, term simplifier) and Python/numpy",
]


class Check:
    def __init__(s, pid, title, units, trusted=(), assumptions=(), replay=None, level="proof", limit=None):
        s.pid, s.title, s.units, s.trusted, s.assumptions = pid, title, units, list(trusted), list(assumptions)
        s.replay, s.level, s.limit = replay, level, limit


def known(pid):
    out = []
    try:
        for l in open(VERIF + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out


def build_replay(prog, pid, flags=()):
    d = front.tmpdir()
    exe = "%s/%s_%s" % (d, prog, pid)
    cmd = ["clang++-18", "-std=c++20", "-w", "-I", VERIF + "/shim", "-I", front.REPO + "/include", "-I", VERIF + "/harness",
           "-D" + pid, "-DPROP=\"replay_%s.hpp\"" % pid, VERIF + "/harness/%s.cpp" % prog, "-o", exe] + list(flags) + ["-lgmpxx", "-lgmp"]
    rc, out, err = front.run(cmd)
    if rc:
        raise front.BuildError("replay harness does not build:\n" + err[-2000:])
    return exe


def run_replay(pid, prog, seed, budget, hints, flags):
    """native search for a failing input. returns None or text"""
    exe = build_replay(prog, pid, flags)
    hf = front.tmpdir() + "/hints_%s" % pid
    with open(hf, "w") as f:
        for h in hints:
            f.write(h + "\n")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:detect_leaks=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:print_stacktrace=0"
    procs = []
    n = 8
    for k in range(n):
        lf = open(front.tmpdir() + "/replay_%s_%d.log" % (pid, k), "w+b")
        p = subprocess.Popen(["/bin/bash", "-c", "ulimit -s 262144; ulimit -v 16000000 2>/dev/null; exec \"$@\"" if "-fsanitize=address,undefined" not in flags and "-fsanitize=address" not in flags else "ulimit -s 262144; exec \"$@\"", "x",
                              exe, str(seed * 1000 + k), str(budget), str(k), str(n), hf], stdout=lf, stderr=subprocess.STDOUT, env=env)
        procs.append((p, lf, k))
    t0 = time.time()
    found, runs = None, 0
    hang = budget * 3 + 60
    live = list(procs)
    while live:
        for e in list(live):
            p, lf, k = e
            rc = p.poll()
            if rc is None:
                if time.time() - t0 < hang and not found:
                    continue
                p.kill()
                p.wait()
                rc = "timeout"
            live.remove(e)
            lf.seek(0)
            txt = lf.read().decode("utf-8", "replace")
            lf.close()
            m = re.search(r"^RUNS (\d+)", txt, re.M)
            if m:
                runs += int(m.group(1))
            if rc in (1, 77) or (isinstance(rc, int) and rc < 0 and rc != -9):
                found = found or ("exit %s\n%s" % (rc, txt[-4000:]))
        time.sleep(0.05)
    return found, runs, exe


def main(chk):
    tier = os.environ.get("VERIF_TIER") or "quick"
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    pid = chk.pid
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    try:
        units = chk.units(tier, seed)
    except front.BuildError as e:
        print("ERROR: %s: extraction failed: %s" % (pid, e))
        sys.exit(2)
    limit = chk.limit or (600 if tier == "quick" else 3000)
    res = run_units(units, limit=limit)
    bad = [r for r in res if r["status"] != PROVED]
    hints = []
    for r in bad:
        if r["cex"]:
            hints += r["cex"] if isinstance(r["cex"], list) else [str(r["cex"])]
    found, runs, replay_note = None, 0, ""
    if chk.replay:
        prog, flags, bq, bt = chk.replay
        budget = bt if tier == "thorough" else bq
        if bad:
            budget = max(budget, 60 if tier == "quick" else bt)
        if budget:
            try:
                found, runs, exe = run_replay(pid, prog, seed, budget, hints, list(flags))
            except front.BuildError as e:
                replay_note = str(e)
    by, fns, contracts, ass, kinds = {}, {}, {}, set(chk.assumptions), {}
    for r in res:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
        for k, v in r["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
        for k, v in r["fns"].items(): fns[k] = fns.get(k, 0) + v
        for k, v in r["contracts"].items(): contracts[k] = contracts.get(k, 0) + v
        ass |= set(r["assumptions"])
    disch = sum(r["n"] for r in res if not r["bounded"])
    nbad = len(bad)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": chk.level,
        "coverage": {
            "obligations": disch + nbad,
            "discharged": disch,
            "checker_cmd": "cd /verif && VERIF_TIER=%s python3-vt checks/%s.py" % (tier, pid),
            "trusted_base": TRUSTED + chk.trusted,
            "functions_under_contract": sorted({r["fn"] for r in res}),
            "obligations_by_back_end": by,
            "obligations_by_kind": kinds,
            "bounded_obligations_not_counted": sum(r["n"] for r in res if r["bounded"]),
            "solver_time_s": round(sum(r["solver_time"] for r in res), 2),
            "solver_queries": sum(r["queries"] for r in res),
            "repo_functions_executed_symbolically": {sym.short(k): v for k, v in sorted(fns.items()) if not k.startswith("std::")},
            "callee_contracts_used": {sym.short(k): v for k, v in sorted(contracts.items())},
            "units": [{"unit": r["name"], "status": r["status"], "obligations": r["n"], "time_s": round(r["time"], 2),
                       **({"bounded": True} if r["bounded"] else {}),
                       **({"notes": r["notes"]} if r["notes"] else {}),
                       **({"detail": r["detail"][:2000]} if r["status"] != PROVED else {})} for r in res],
            "native_cross_validation_runs": runs,
            "source_id": front.source_id(),
        },
        "assumptions": sorted(ass),
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }
    rc = 0
    path = "%s/replays/%s.txt" % (VERIF, pid)
    if bad or found:
        rc = 1
        with open(path, "w") as f:
            f.write("property %s: %s\n" % (pid, chk.title))
            for r in bad:
                f.write("\nobligation not discharged: %s [%s]\nfunction: %s\n%s\n" % (r["name"], r["status"], r["fn"], r["detail"]))
                if r["cex"]:
                    f.write("verifier counterexample: %s\n" % r["cex"])
            if found:
                f.write("\nfailing input, replayed against the real code (harness/%s.cpp, -D%s, seed %d):\n%s\n" % (chk.replay[0], pid, seed, found))
            else:
                f.write("\nno failing input found (%d native runs). %s\n" % (runs, replay_note))
        for r in bad:
            print("OBLIGATION %s: %s (%s) %s" % (r["status"], r["name"], r["fn"], r["detail"].split("\n")[0][:300]))
        if found:
            print("\n".join(found.strip().split("\n")[-6:])[:1200])
        ev["violations"] = max(1, nbad)
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
    else:
        if os.path.exists(path):
            os.unlink(path)
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("OK property=%s obligations=%d discharged=%d units=%d native_runs=%d %.1fs" % (pid, disch, disch, len(res), runs, time.time() - t0))
    ev["wall_s"] = round(time.time() - t0, 2)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
    sys.exit(rc)
