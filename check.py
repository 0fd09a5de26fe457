#!/usr/bin/env python3
"""Driver of all checks:  python3 check.py <property> [--tier quick|thorough] [--keep]
                          python3 check.py --replay FILE

Builds the harness of one property from /repo's working tree (several
compilers, standards and sanitizers), runs it, watches it (crash, sanitizer
report, std::terminate, trap, hang), collects what the oracles observed and
writes evidence/<property>.json.  Exit 0: held on everything observed.  Exit 1
with a VIOLATION line: broken.  Exit 2: no verdict (an error of the check).
"""
import argparse, concurrent.futures, json, os, random, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MLIB_REPO", "/repo")     # only ever set by hand, for experiments on scratch copies
HARNESS = os.path.join(HERE, "harness")
JOBS = min(8, os.cpu_count() or 8)
EVID = os.path.join(HERE, "evidence")

from registry import CHECKS, BUILDS  # noqa: E402


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ builds --
def compile_cmd(build, src, defs, out, extra=()):
    b = BUILDS[build]
    return [b["cxx"], *b["flags"], "-w", "-I", os.path.join(REPO, "matrix"), "-I", HARNESS, *extra,
            *["-D" + d for d in defs], *([src] if isinstance(src, str) else src), "-o", out, *b.get("libs", [])]


def run_compile(cmd, timeout=700):
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("compiler timed out: " + " ".join(cmd))
        text = p.stdout.decode(errors="replace")
        if p.returncode == 0:
            return True, text
        # a killed compiler or an internal compiler error is not a verdict
        if "error:" in text and "internal compiler error" not in text and "Killed" not in text or "multiple definition" in text or "undefined reference" in text:
            if attempt == 2:
                return False, text
        elif attempt == 2:
            raise Inconclusive("compiler failed: " + " ".join(cmd) + "\n" + text[-2000:])
    return False, text


def probe(build, work):
    """Does the library, with nothing instantiated, compile in this configuration at all?"""
    src = os.path.join(work, "probe_%s.cpp" % build)
    with open(src, "w") as f:
        f.write('#include "mon.hpp"\nint main() { return 0; }\n')
    ok, _ = run_compile(compile_cmd(build, src, [], os.path.join(work, "probe_" + build)))
    return ok


# ---------------------------------------------------------------- monitors --
SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|runtime error:[^\n]*|"
                 r"Assertion '[^\n]*|terminate called[^\n]*|==\d+== (?:Invalid|Conditional|Use of|Source and)[^\n]*)")


def read_crumb(path):
    try:
        with open(path, "rb") as f:
            b = f.read(4096)
        serial = struct.unpack("<Q", b[:8])[0]
        text = b[8:].split(b"\0")[0].decode(errors="replace").strip()
        unit, _, cs = text.rpartition(" ")
        return serial, unit, int(cs)
    except Exception:
        return 0, "", 0


def run_binary(cmd, env, crumb, stall, total):
    """Returns (status, returncode, output); status ok | stalled | timeout."""
    if os.path.exists(crumb):
        os.unlink(crumb)
    outp = crumb + ".log"
    with open(outp, "wb") as lf:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        t0 = last_t = time.time()
        last = -1
        status = "ok"
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            s = read_crumb(crumb)[0]
            now = time.time()
            if s != last:
                last, last_t = s, now
            if now - last_t > stall:
                status = "stalled"
            elif now - t0 > total:
                status = "timeout"
            if status != "ok":
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    with open(outp, "rb") as f:
        text = f.read(400000).decode(errors="replace")
    return status, p.returncode, text


def base_env(build):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LC_ALL": "C"}
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=1"
    e["MSAN_OPTIONS"] = "halt_on_error=1:poison_in_malloc=0:poison_in_free=0:strict_memcmp=0"
    e.update(BUILDS[build].get("env", {}))
    return e


def describe_end(rc, text):
    m = SAN.search(text)
    if m:
        return m.group(1).strip()
    if rc is not None and rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    return "exit status %s" % rc


def run_job(job, work, tier, seed):
    """One (part, build): run the binary and turn its end into records."""
    build = job["build"]
    crumb = os.path.join(work, "crumb_" + job["name"])
    out = os.path.join(work, "out_" + job["name"] + ".json")
    base = [*BUILDS[build].get("wrap", []), job["bin"], "--seed", str(seed), "--cases", str(job["cases"]), "--crumb", crumb]
    env = base_env(build)
    res = {"violations": [], "result": None}
    skip = []
    for attempt in range(4):
        cmd = base + ["--out", out] + (["--skip", ",".join(skip)] if skip else [])
        status, rc, text = run_binary(cmd, env, crumb, job["stall"], job["total"])
        if status == "ok" and rc in (0, 1) and os.path.exists(out) and not SAN.search(text):
            with open(out) as f:
                r = json.load(f)
            if r.get("complete"):
                res["result"] = r
                for v in r["violations"]:
                    res["violations"].append(dict(unit=v["unit"], case_seed=v["case_seed"], kind="oracle", what=v["what"]))
                return res
        serial, unit, cs = read_crumb(crumb)
        if status == "timeout":
            raise Inconclusive("%s: not finished after %d s (still progressing)" % (job["name"], job["total"]))
        if rc == 3:
            raise Inconclusive("%s: harness error\n%s" % (job["name"], text[-2000:]))
        if not unit or unit == "(finished)" or serial == 0:
            raise Inconclusive("%s: ended outside a case: %s\n%s" % (job["name"], describe_end(rc, text), text[-3000:]))
        if rc == -signal.SIGKILL and status == "ok":
            raise Inconclusive("%s: killed from outside (memory?)" % job["name"])
        # crashed, reported or stalled inside a case: must happen again on that case alone
        again = []
        for _ in range(2):
            c2 = [*BUILDS[build].get("wrap", []), job["bin"], "--seed", str(seed), "--unit", unit, "--case", str(cs), "--out", out, "--crumb", crumb + "r"]
            s2, rc2, t2 = run_binary(c2, env, crumb + "r", job["stall"], job["total"])
            again.append(s2 != "ok" or rc2 not in (0,) or bool(SAN.search(t2)))
            if status == "stalled":
                break
        whole = None
        if not any(again):
            # depends on history or schedule: repeat the whole run
            s2, rc2, t2 = run_binary(cmd, env, crumb, job["stall"], job["total"])
            whole = s2 != "ok" or rc2 not in (0, 1) or bool(SAN.search(t2))
            if not whole and build != "tsan":
                raise Inconclusive("%s: %s in %s case %s did not happen again" % (job["name"], describe_end(rc, text), unit, cs))
        what = "no answer (hang)" if status == "stalled" else describe_end(rc, text)
        res["violations"].append(dict(unit=unit, case_seed=cs, kind="hang" if status == "stalled" else "crash", what=what, log=text[-6000:]))
        skip.append(unit)
        if len(res["violations"]) >= 2:
            return res
    return res


# ------------------------------------------------------------ known findings --
def load_known():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) unit=(\S+) kind=(\S+) what=(.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), unit=m.group(2), kind=m.group(3), what=m.group(4)))
    return out


def matches(known, prop, v):
    return known["property"] == prop and re.fullmatch(known["unit"], v["unit"]) and known["kind"] == v["kind"]


# -------------------------------------------------------------------- main --
def rand_shapes(seed, k=2):
    r = random.Random(seed * 7919 + 17)
    pool = [(a, b) for a in range(1, 41) for b in range(1, 41) if a != b and (a > 5 or b > 5)]
    return r.sample(pool, k)


def rand_sizes(seed, k=2, lo=10, hi=24):
    r = random.Random(seed * 104729 + 5)
    pool = [n for n in range(lo, hi + 1) if n not in (10, 12, 16, 17, 33)]
    return r.sample(pool, k)


def rand_tris(seed, k=2):
    r = random.Random(seed * 15485863 + 3)
    return [tuple(r.randint(1, 24) for _ in range(3)) for _ in range(k)] + [tuple([r.randint(10, 40)] * 3)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    if a.replay:
        return replay(a.replay)
    prop = a.property
    if prop not in CHECKS:
        log("unknown property", prop)
        return 2
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    chk = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="mlib-%s-" % prop)
    try:
        if "custom" in chk:
            import custom
            return finish(prop, chk, a, *getattr(custom, chk["custom"])(prop, chk, a, work))
        return finish(prop, chk, a, *generic(prop, chk, a, work))
    except Inconclusive as e:
        log("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2
    except Exception:
        import traceback
        log("INCONCLUSIVE property=%s error of the check\n%s" % (prop, traceback.format_exc()))
        return 2
    finally:
        if a.keep:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def shape_defs(seed):
    return ["MON_XS=" + ",".join("Shape<%d,%d>" % s for s in rand_shapes(seed)),
            "MON_XN=" + ",".join(str(n) for n in rand_sizes(seed)),
            "MON_XT=" + ",".join("Tri<%d,%d,%d>" % s for s in rand_tris(seed))]


def generic(prop, chk, a, work):
    t0 = time.time()
    jobs, violations, notes = [], [], []
    rounds = [a.seed] if a.tier == "quick" else [a.seed + 1000 * k for k in range(chk.get("rounds", 3))]
    builds = chk["builds"][a.tier]
    for rs in rounds:
        runs = [(b, cases, part) for b, cases in builds for part in range(chk["parts"])]
        if "dense" in chk:                       # every shape up to a bound, few cases each (shapes.hpp)
            d = chk["dense"]
            runs += [(d["build"], d["cases"][a.tier == "thorough"], 10 + k) for k in range(4)]
        for b, cases, part in runs:
            name = "%s_p%d_%s_s%d" % (prop, part, b, rs)
            jobs.append(dict(name=name, build=b, part=part, seed=rs, cases=cases, src=os.path.join(HARNESS, chk["src"]),
                             bin=os.path.join(work, name), defs=["MON_PART=%d" % part] + shape_defs(rs) + chk.get("defs", []),
                             stall=chk.get("stall", 60), total=chk.get("total", 400 if a.tier == "quick" else 3000)))
    # longest compilations first
    jobs.sort(key=lambda j: BUILDS[j["build"]].get("order", 1))
    results = []

    def work_one(j):
        cmd = compile_cmd(j["build"], j["src"], j["defs"], j["bin"])
        tc = time.time()
        ok, text = run_compile(cmd)
        tc = time.time() - tc
        if not ok:
            return j, None, text, tc, 0
        tr = time.time()
        try:
            r = run_job(j, work, a.tier, j["seed"])
        except Inconclusive as e:
            # must not hide what the other runs observed
            r = dict(violations=[], result=None, unclear=str(e))
        tr = time.time() - tr
        if not a.keep:
            os.unlink(j["bin"])
        return j, r, "", tc, tr

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for j, r, text, tc, tr in ex.map(work_one, jobs):
            if os.environ.get("CHECK_TIMES"):
                log("  %-28s compile %5.1fs run %5.1fs" % (j["name"], tc, tr))
            results.append((j, r, text))
    failed_builds = {}
    for j, r, text in results:
        if r is None:
            failed_builds.setdefault(j["build"], []).append((j, text))
    for b, lst in failed_builds.items():
        if probe(b, work):
            j, text = lst[0]
            errs = [l for l in text.splitlines() if "error:" in l or "multiple definition" in l or "undefined reference" in l]
            violations.append(dict(unit=j["name"].split("_s")[0], case_seed=0, kind="build", build=b, part=j["part"], defs=j["defs"], src=j["src"],
                                   what="a call the property covers no longer compiles: " + (errs[0] if errs else "")[:400], log=text[:6000]))
        else:
            notes.append("the library does not compile in build '%s'; not observed there" % b)
    agg = dict(evaluations=0, oracle_events=0, distinct_nontrivial=0, units=0, counts={}, samples=[], builds={}, x_max_error_over_bound={})
    unclear = []
    for j, r, _ in results:
        if not r:
            continue
        if r.get("unclear"):
            unclear.append(r["unclear"])
        for v in r["violations"]:
            v.update(build=j["build"], part=j["part"], defs=j["defs"], src=j["src"])
            violations.append(v)
        x = r["result"]
        if not x:
            continue
        for k in ("evaluations", "oracle_events", "distinct_nontrivial", "units"):
            agg[k] += x[k]
        for k, n in x["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + n
        for k, n in x.get("gauges", {}).items():
            agg["x_max_error_over_bound"][k] = max(n, agg["x_max_error_over_bound"].get(k, 0))
        agg["builds"][j["build"]] = agg["builds"].get(j["build"], 0) + x["evaluations"]
        agg["samples"] += x["samples"][:2]
        if not x["evaluations"] or not x["oracle_events"]:
            unclear.append("%s observed nothing" % j["name"])
    if unclear and not violations:
        raise Inconclusive("; ".join(unclear))
    notes += unclear
    if not violations and not agg["evaluations"]:
        raise Inconclusive("no build of the harness ran: " + "; ".join(notes))
    missing = [k for k in chk.get("must_observe", []) if not agg["counts"].get(k)]
    if missing and not violations:
        raise Inconclusive("the monitors never observed: " + ", ".join(missing))
    return agg, violations, notes, t0


def finish(prop, chk, a, agg, violations, notes, t0):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    known, fresh, seen = load_known(), [], []
    for v in violations:
        k = next((k for k in known if matches(k, prop, v)), None)
        (seen if k else fresh).append((k, v))
    for k in {id(k): k for k, _ in seen}.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=chk.get("level", "exploration"),
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct_nontrivial"], rule=chk["rule"],
                            samples=agg["samples"][:8] or ["(none recorded)"], units=agg["units"], oracle_events=agg["oracle_events"],
                            observed=agg["counts"], evaluations_per_build=agg["builds"], exhaustive=False),
              assumptions=chk.get("assumptions", []) + notes, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    for k in agg:
        if k.startswith("x_") and agg[k]:
            ev["coverage"][k[2:]] = agg[k]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d cases (%d distinct non-trivial), %d oracle events in %d units, builds %s, %.1f s"
        % (prop, a.tier, a.seed, agg["evaluations"], agg["distinct_nontrivial"], agg["oracle_events"], agg["units"], agg["builds"], time.time() - t0))
    for n in notes:
        log("note:", n)
    if not fresh:
        return 0
    for i, (_, v) in enumerate(fresh[:5]):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i))
        v = dict(v, property=prop, seed=a.seed, replay_with="python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        log("  %s [%s, %s]: %s" % (v["unit"], v.get("build"), v["kind"], v["what"][:1500]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def big_stack(want=1 << 28):
    """Large matrices are automatic variables; a rewrite with larger frames must not
    look like a crash.  Inherited by every program started from here."""
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    if soft == resource.RLIM_INFINITY or soft < want:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="mlib-replay-")
    try:
        if not v.get("src"):
            log(json.dumps(v, indent=1))
            return 0
        exe = os.path.join(work, "replay")
        ok, text = run_compile(compile_cmd(v["build"], v["src"], v["defs"], exe))
        if not ok:
            log(text[:4000])
            return 1
        cmd = [*BUILDS[v["build"]].get("wrap", []), exe, "-v", "--seed", str(v["seed"]), "--unit", v["unit"], "--case", str(v["case_seed"])]
        log("$", " ".join(cmd))
        return subprocess.run(cmd, env=base_env(v["build"])).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    big_stack()
    sys.exit(main())
