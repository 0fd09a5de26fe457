"""Checks whose unit is a whole program rather than a call: C20 (builds) and C21 (benchmarks)."""
import concurrent.futures, glob, hashlib, os, re, resource, signal, subprocess, time
import sys
M = sys.modules["__main__"]          # check.py


def big_stack():
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 29
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def run(cmd, timeout, env=None, out=None, stack=False):
    e = M.base_env("asan")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT if not out else subprocess.PIPE,
                           timeout=timeout, env=e, preexec_fn=big_stack if stack else None)
    except subprocess.TimeoutExpired:
        return None, ""
    return p.returncode, ((p.stdout or b"") + (p.stderr or b"") if not out else p.stderr or b"").decode(errors="replace")


def new_agg():
    return dict(evaluations=0, oracle_events=0, distinct_nontrivial=0, units=0, counts={}, samples=[], builds={})


# ---------------------------------------------------------------------- C20 --
# gcc 13 vectorises some correct rewrites of the library wrongly (std::array::fill of rows at -O2)
NOVEC = {"g++": ["-fno-tree-vectorize"]}


def c20_configs(tier):
    out = []
    for cxx in ("g++", "clang++"):
        for std in ("11", "14", "17", "20"):
            out += [(cxx, std, "-O0", []), (cxx, std, "-O2", ["-DNDEBUG"])]
        out += [(cxx, "11", "-O3", ["-DNDEBUG"]), (cxx, "14", "-O1", []), (cxx, "17", "-Os", []), (cxx, "20", "-O3", [])]
        if tier == "thorough":
            out += [(cxx, std, o, d) for std in ("11", "14", "17", "20") for o in ("-O1", "-O3", "-Os") for d in ([], ["-DNDEBUG"])
                    if (cxx, std, o, d) not in out]
            out += [(cxx, "gnu++14", "-O2", []), (cxx, "14", "-O2", ["-D_GLIBCXX_ASSERTIONS"]), (cxx, "14", "-O2", ["-fno-inline"]), (cxx, "17", "-O2", ["-fPIC", "-pthread"])]
    return out


def c20(prop, chk, a, work):
    t0 = time.time()
    cases = 5 if a.tier == "quick" else 24
    H = M.HARNESS
    confs = c20_configs(a.tier)
    objs = {}

    def name(c):
        return "%s %s %s %s" % (c[0], c[1] if c[1].startswith("gnu") else "c++" + c[1], c[2], " ".join(c[3]))

    def flags(c):
        return [c[0], "-std=" + (c[1] if c[1].startswith("gnu") else "c++" + c[1]), c[2], *c[3], *NOVEC.get(c[0], []), "-w", "-I", os.path.join(M.REPO, "matrix")]

    def compile_one(job):
        c, tu = job
        o = os.path.join(work, hashlib.sha1((name(c) + str(tu)).encode()).hexdigest()[:12] + ".o")
        src = [os.path.join(H, "c20_main.cpp")] if tu == 0 else ["-DC20_TU=%d" % tu, "-DC20_NS=ns%d" % tu, "-DC20_ENTRY=c20_tu%d" % tu, os.path.join(H, "c20_strict.cpp")]
        ok, text = M.run_compile([*flags(c), "-c", *src, "-o", o])
        return c, tu, o, ok, text

    jobs = [(c, tu) for c in confs for tu in (1, 2, 0)]
    jobs.sort(key=lambda j: (j[1] == 0, j[0][2] == "-O0"))
    violations, bad = [], {}
    with concurrent.futures.ThreadPoolExecutor(M.JOBS) as ex:
        for c, tu, o, ok, text in ex.map(compile_one, jobs):
            if ok:
                objs[(name(c), tu)] = o
            else:
                bad.setdefault(name(c), (tu, text))

    def fail(c, what, log=""):
        violations.append(dict(unit=name(c).strip().replace(" ", "_"), case_seed=0, kind="build", build=name(c), what=what, log=log[:6000]))

    def err(text):
        e = [l for l in text.splitlines() if "error:" in l or "multiple definition" in l or "undefined reference" in l]
        return (e[0] if e else text[-300:])[:400]

    logs = {}

    def link_run(c):
        exe = os.path.join(work, hashlib.sha1(name(c).encode()).hexdigest()[:12])
        ok, text = M.run_compile([c[0], "-pthread", *[objs[(name(c), tu)] for tu in (0, 1, 2)], "-o", exe])
        if not ok:
            return c, None, "does not link: " + err(text), text
        res = None
        for attempt in (1, 2):
            with open(exe + ".log", "wb") as f:
                rc, text = run([exe, str(cases), str(a.seed)], 300, out=f)
            if rc is None:
                raise M.Inconclusive("C20 program timed out: " + name(c))
            res = rc
            if rc == 0:
                break
        os.unlink(exe)
        if res != 0:
            return c, None, "the program ended with " + M.describe_end(res, text), text
        return c, exe + ".log", "", ""

    todo = []
    for c in confs:
        if name(c) in bad:
            tu, text = bad[name(c)]
            fail(c, "a translation unit that includes only matrix.hpp does not compile: " + err(text) if tu else "does not compile: " + err(text), text)
        else:
            todo.append(c)
    with concurrent.futures.ThreadPoolExecutor(M.JOBS) as ex:
        for c, path, what, text in ex.map(link_run, todo):
            if path is None:
                fail(c, what, text)
            else:
                logs[name(c)] = (c, path)
    agg = new_agg()
    agg["units"] = len(confs)
    ref = None
    distinct = set()
    for n, (c, path) in logs.items():
        with open(path, "rb") as f:
            text = f.read().decode(errors="replace")
        lines = text.splitlines()
        tu1, _, tu2 = text.partition("%TU 2\n")
        common1, common2 = (t.split("%own")[0].replace("%TU 1\n", "").strip() for t in (tu1, tu2))
        if len(common1) < 1000:
            raise M.Inconclusive("C20 program wrote no results: " + n)
        if common1 != common2:
            d = next((x, y) for x, y in zip(common1.splitlines() + [""], common2.splitlines() + [""]) if x != y)
            fail(c, "the same call gives different results in two translation units of one program: %s | %s" % (d[0][:200], d[1][:200]))
        calls = sum(1 for l in lines if "#" in l)
        agg["evaluations"] += calls
        agg["oracle_events"] += calls
        agg["builds"][n.strip()] = calls
        distinct.update(hashlib.sha1(l.encode()).digest()[:8] for l in lines if "#" in l)
        if ref is None:
            ref = (n, lines)
            agg["samples"] += lines[5:700:140]
            for l in lines:
                if "#" in l:
                    k = l.split("/")[0]
                    agg["counts"][k] = agg["counts"].get(k, 0) + 1
            continue
        if lines != ref[1]:
            d = next(((x, y) for x, y in zip(lines, ref[1]) if x != y), ("%d lines" % len(lines), "%d lines" % len(ref[1])))
            fail(c, "result differs between builds: [%s] %s | [%s] %s" % (n.strip(), d[0][:300], ref[0].strip(), d[1][:300]))
    agg["distinct_nontrivial"] = len(distinct)
    agg["x_translation_units_per_program"] = 3
    agg["x_configurations"] = sorted(n.strip() for n in logs)
    if not violations and not agg["evaluations"]:
        raise M.Inconclusive("nothing ran")
    return agg, violations, [], t0


# ---------------------------------------------------------------------- C21 --
def c21_cost(name):
    nums = [int(x) for x in re.findall(r"(\d+)\s*\*\s*(\d+)", name) for x in [str(int(x[0]) * int(x[1]))]]
    n = max(nums or [2])
    op = name.split("<")[0].split("/")[0]
    return n, {"inv": n ** 5 / 3, "det": n ** 3 / 3, "multiply": n ** 3}.get(op, n * n)


def c21(prop, chk, a, work):
    t0 = time.time()
    agg, violations = new_agg(), []
    limit = 6e9 if a.tier == "quick" else 1.2e11
    reps = 12 if a.tier == "quick" else 60
    progs = sorted(glob.glob(os.path.join(M.REPO, "bench", "*", "*.cpp")))
    if not progs:
        raise M.Inconclusive("no benchmark programs")
    san = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1", "-D_GLIBCXX_ASSERTIONS"]

    def build(src):
        exe = os.path.join(work, os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src)[:-4])
        opt = "-O0" if "cache" in src else "-O1"
        ok, text = M.run_compile(["g++", "-std=c++14", opt, *san, "-w", "-include", os.path.join(M.HARNESS, "bench_prelude.hpp"), "-I", os.path.join(M.REPO, "matrix"),
                                  "-I", os.path.join(M.REPO, "bench", "inc"), "-I", os.path.dirname(src), src, "-o", exe, "-lbenchmark", "-lpthread"])
        return src, exe, ok, text

    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0"}
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(M.JOBS) as ex:
        for src, exe, ok, text in ex.map(build, progs):
            rel = os.path.relpath(src, M.REPO)
            if not ok:
                e = [l for l in text.splitlines() if "error:" in l or "undefined reference" in l]
                violations.append(dict(unit=rel, case_seed=0, kind="build", build="asan", what="the benchmark does not compile: " + (e[0] if e else "")[:400], log=text[:4000]))
                continue
            rc, out = run([exe, "--benchmark_list_tests=true"], 60, env, stack=True)
            if rc != 0:
                raise M.Inconclusive("%s: cannot list benchmarks\n%s" % (rel, out[-1500:]))
            for n in out.split("\n"):
                if n.strip():
                    size, cost = c21_cost(n)
                    if cost <= limit:
                        jobs += [(rel, exe, n.strip(), k) for k in range(reps if cost <= 1e8 else 1)]
                    else:
                        agg.setdefault("x_not_run_too_long", []).append(rel + " " + n.strip())

    jobs.sort(key=lambda j: -c21_cost(j[2])[1])

    def go(j):
        rel, exe, n, k = j
        e = dict(env, MON_BENCH_SEED=str(a.seed * 3000 + k))
        flt = "^" + re.escape(n).replace("\\ ", " ") + "$"
        flt = "^" + re.sub(r"([*<>,+()])", lambda m: "[*]" if m.group(1) == "*" else "\\" + m.group(1) if m.group(1) in "()+" else m.group(1), n) + "$"
        cmd = [exe, "--benchmark_filter=" + flt, "--benchmark_min_time=%dx" % (1 if c21_cost(n)[1] > 1e8 else 2 if c21_cost(n)[1] > 1e6 else 20)]
        rc, out = run(cmd, 2000, e, stack=True)
        if rc is None:
            raise M.Inconclusive("%s %s: not finished after 2000 s" % (rel, n))
        return j, rc, out, cmd

    with concurrent.futures.ThreadPoolExecutor(M.JOBS) as ex:
        for (rel, exe, n, k), rc, out, cmd in ex.map(go, jobs):
            ran = rc == 0 and re.search(r"^" + re.escape(n) + r"\s", out, re.M)
            if rc == 0 and not ran:
                raise M.Inconclusive("%s %s did not run:\n%s" % (rel, n, out[-1500:]))
            if rc != 0 or M.SAN.search(out):
                rc2, out2 = run(cmd, 2000, dict(env, MON_BENCH_SEED=str(a.seed * 3000 + k)), stack=True)
                if rc2 == 0 and not M.SAN.search(out2):
                    raise M.Inconclusive("%s %s: %s did not happen again" % (rel, n, M.describe_end(rc, out)))
                if len(violations) < 6:
                    violations.append(dict(unit=rel + ":" + n.replace(" ", ""), case_seed=a.seed * 3000 + k, kind="crash", build="asan", what=M.describe_end(rc, out), log=out[-6000:]))
                continue
            agg["evaluations"] += 1
            agg["oracle_events"] += 1
            agg["counts"][rel] = agg["counts"].get(rel, 0) + 1
            agg["builds"]["asan"] = agg["builds"].get("asan", 0) + 1
            if len(agg["samples"]) < 6 and k == 0:
                m = re.search(r"^" + re.escape(n) + r".*$", out, re.M)
                agg["samples"].append(rel + ": " + m.group(0))
    agg["units"] = len({(j[0], j[2]) for j in jobs})
    agg["distinct_nontrivial"] = agg["evaluations"]
    if not violations and not agg["evaluations"]:
        raise M.Inconclusive("no benchmark ran")
    return agg, violations, [], t0
