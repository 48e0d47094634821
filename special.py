"""Checks that need more than running workers."""
import json, os, re, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import check as ck


def c09(pid, spec, tier, seed, report):
    """The same cases in two sets of processes with different thread counts: in-process comparisons
    happen in the worker; here the fingerprints (case, predictions) of both sets must coincide."""
    ck.run_all(pid, spec, tier, seed, report)
    if ck.unlisted(pid, report):
        return
    sets = []
    for rayon in (1, 6):
        part = ck.Report()
        run = dict(spec["runs"][0], rayon=rayon)
        run["cases"] = tuple(max(1, c // 4) for c in run["cases"])
        ck.run_workers(pid, run, tier, seed, part)
        report.violations.extend(part.violations)
        report.evaluations += part.evaluations
        sets.append((part.distinct, sum(w["cases"] for w in part.workers), run["cases"][0 if tier == "quick" else 1]))
    (a, na, want), (b, nb, _) = sets
    if na == nb == want:
        report.counters["compared_across_processes"] = len(a)
        if a != b:
            report.violations.append(dict(sig="process", detail="%d of %d models differ between processes with 1 and 6 rayon threads"
                                     % (len(a - b), len(a)), replay=dict(kind="note", seed=seed)))
    else:
        report.notes.append("process comparison skipped: time limit")


SAN = {
    # tool: (flags, environment, exit code, report headers)
    "asan": ("-Zsanitizer=address", dict(ASAN_OPTIONS="exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0"),
             ("ERROR: AddressSanitizer", "runtime error:")),
    "msan": ("-Zsanitizer=memory -Zsanitizer-memory-track-origins", dict(MSAN_OPTIONS="exitcode=79:abort_on_error=0"),
             ("WARNING: MemorySanitizer",)),
    "tsan": ("-Zsanitizer=thread", dict(TSAN_OPTIONS="exitcode=78:halt_on_error=1:second_deadlock_stack=1:suppressions=%s" % os.path.join(ck.HARNESS, "tsan.supp")),
             ("WARNING: ThreadSanitizer",)),
}
TRIPLE = "x86_64-unknown-linux-gnu"
# what each Miri process works through; grouped so that they take about equally long
MIRI = ["c09", "shared,c12,c04", "c21,c16,c05", "c11,c22,c15", "pipeline,c02", "c18,c20", "c10,c03,c01", "c14,c06,c07,c17"]
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


def san_build(tool):
    flags = SAN[tool][0]
    ck.drop_fingerprints(os.path.join(ck.TARGET, "san-" + tool))
    ck.cargo(["build", "--offline", "-Zbuild-std", "--release", "--target", TRIPLE, "--bin", "c08"],
             target=os.path.join(ck.TARGET, "san-" + tool), timeout=840, what="cargo build (%s)" % tool,
             env=dict(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS=flags + " --cfg bbmon_plain -Awarnings", CARGO_BUILD_JOBS="6"))
    return os.path.join(ck.TARGET, "san-" + tool, TRIPLE, "release")


MIRIENV = dict(RUSTUP_TOOLCHAIN=NIGHTLY, BBMON_TINY="1", RAYON_NUM_THREADS="2", RUSTFLAGS="-C target-feature=+avx2 --cfg bbmon_plain -Awarnings")


def miri_env(seed):
    e = ck.env_base()
    e.update(MIRIENV)
    e["CARGO_TARGET_DIR"] = os.path.join(ck.TARGET, "miri")
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-seed=%d" % seed
    return e


def miri_build():
    """Builds the worker (and Miri's own standard library) and runs no case."""
    e = miri_env(0)
    ck.drop_fingerprints(e["CARGO_TARGET_DIR"])
    p = subprocess.run(["cargo", "miri", "run", "--offline", "--bin", "c08", "--", "--cases", "0"], cwd=ck.HARNESS, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=840)
    if p.returncode != 0:
        raise ck.Inconclusive("cargo miri failed: %s" % p.stdout[-1500:])


def launch(cmd, env, cwd, out, err):
    return subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=open(out, "wb"), stderr=open(err, "wb"),
                            start_new_session=True)


def read_plain(path, report, prefix):
    """The worker's report: observations only, functional verdicts are other checks' affair."""
    try:
        r = json.load(open(path))
    except (OSError, ValueError):
        return 0
    report.evaluations += r["evaluations"]
    report.distinct.update(prefix + d for d in r["distinct"])
    for k, v in r["counters"].items():
        if not k.startswith(("workload_", "cases", "shared")):
            continue
        k = prefix + k
        report.counters[k] = report.counters.get(k, 0) + v
    return r["cases"]


def first_frames(text):
    """The first source locations of a report that lie in the code under test."""
    fr = []
    for m in re.finditer(r"/repo/(src/[\w/]+\.rs):\d+", text):
        if m.group(1) not in fr:
            fr.append(m.group(1))
    return fr[:2]


def san_runs(tool, bindir, seed, cases, tlimit, report, work):
    _, env, heads = SAN[tool]
    procs = []
    for s in range(8):
        out, jr, err = (os.path.join(work, "%s-%s%d" % (tool, x, s)) for x in ("out", "journal", "err"))
        e = ck.env_base()
        e.update(env)
        e.update(RAYON_NUM_THREADS="4", BBMON_SCRATCH=work, BBMON_BINDIR=bindir)
        cmd = [os.path.join(bindir, "c08"), "--seed", str(seed + 1000), "--cases", str(cases), "--time", str(tlimit), "--out", out, "--journal", jr,
               "--shard", "%d/8" % s]
        procs.append((launch(cmd, e, work, os.devnull, err), out, jr, err))
    done = 0
    end = time.time() + tlimit + 120
    for p, out, jr, err in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            report.notes.append("%s process stopped at its time limit" % tool)
            continue
        text = open(err, errors="replace").read()
        case = open(jr).read().split("\n")[0].strip() if os.path.exists(jr) else ""
        hit = [h for h in heads if h in text]
        if hit:
            at = text.index(hit[0])
            m = re.search(r"(?:ERROR|WARNING): \w+Sanitizer: ([\w-]+(?: \w+)?)", text)
            kind = (m.group(1) if m else hit[0]).replace(" ", "-")
            fr = first_frames(text[at:at + 6000])
            report.violations.append(dict(sig="%s:%s:%s" % (tool, kind, fr[0] if fr else "?"), detail="%s at %s: %s" % (hit[0], fr, text[at:at + 1200]),
                                          replay=dict(kind="sanitizer", tool=tool, case_seed=case)))
        elif rc < 0 and -rc in ck.CRASH_SIGNALS:
            report.violations.append(dict(sig="%s:crash:%s" % (tool, signal.Signals(-rc).name), detail=text[-800:],
                                          replay=dict(kind="sanitizer", tool=tool, case_seed=case)))
        elif rc not in (0, 1):
            report.notes.append("%s process ended with status %d: %s" % (tool, rc, text[-300:]))
        else:
            done += read_plain(out, report, tool + "_")
    return done


def miri_start(seed, tlimit, cases, work):
    procs = []
    for s, w in enumerate(MIRI):
        out, err, jr = (os.path.join(work, "miri-%s%d" % (x, s)) for x in ("out", "err", "journal"))
        e = miri_env(seed * 64 + s)
        e.update(BBMON_WORKLOADS=w, BBMON_SCRATCH=work)
        cmd = ["cargo", "miri", "run", "--offline", "--bin", "c08", "--", "--seed", str(seed + 2000 + s), "--cases", str(cases), "--time", str(tlimit),
               "--out", out, "--journal", jr]
        procs.append((launch(cmd, e, ck.HARNESS, os.devnull, err), out, err, jr, w))
    return procs


def miri_finish(procs, end, report):
    done = 0
    for p, out, err, jr, w in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            rc = None
        text = open(err, errors="replace").read()
        m = re.search(r"error: (Undefined Behavior: .*)", text)
        if m:
            fr = first_frames(text[m.start():])
            case = open(jr).read().split("\n")[0].strip() if os.path.exists(jr) else ""
            report.violations.append(dict(sig="miri:%s:%s" % (re.sub(r"0x[0-9a-f]+|alloc\d+|<\d+>|\d+", "#", m.group(1))[21:100], fr[0] if fr else "?"),
                                          detail="%s (workload %s): %s" % (m.group(1), w, text[m.start():m.start() + 1500]),
                                          replay=dict(kind="miri", workloads=w, case_seed=case)))
        elif rc is None:
            report.notes.append("Miri process %s stopped at the time limit" % w)
        elif rc not in (0, 1):
            report.notes.append("Miri process %s ended with status %s: %s" % (w, rc, text[-300:]))
        else:
            done += read_plain(out, report, "miri_")
    return done


def c08(pid, spec, tier, seed, report):
    """The monitoring allocator first; then the same workloads under the compilers' sanitizers and Miri."""
    start = time.time()
    quick = tier == "quick"
    ck.run_all(pid, spec, tier, seed, report)
    if ck.unlisted(pid, report):
        return
    work = os.path.join(ck.WORK, "C08-san-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        with ThreadPoolExecutor(4) as ex:
            fm = ex.submit(miri_build)
            fs = {t: ex.submit(san_build, t) for t in SAN}
            bindirs = {t: f.result() for t, f in fs.items()}
            fm.result()
        report.notes.append("instrumented builds took %d s" % (time.time() - start))
        scale = 1 if quick else 12
        lack = []
        for t in ("tsan", "asan", "msan"):
            n = san_runs(t, bindirs[t], seed, 1600 * scale, 60 * scale, report, work)
            if ck.unlisted(pid, report):
                return
            if n < 400:
                lack.append("%s finished only %d cases" % (t, n))
        left = 780 - (time.time() - start)
        t = max(40, min(130, left - 260)) if quick else 1800
        procs = miri_start(seed, t, 60 if quick else 3000, work)
        n = miri_finish(procs, time.time() + t + (200 if quick else 1200), report)
        report.counters["miri_processes_with_reports"] = n
        if n < 6:
            lack.append("Miri finished only %d cases" % n)
        if lack and not ck.unlisted(pid, report):
            raise ck.Inconclusive("; ".join(lack + report.notes[-3:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(r):
    os.makedirs(ck.WORK, exist_ok=True)
    if r["kind"] == "sanitizer":
        e = ck.env_base()
        e.update(SAN[r["tool"]][1])
        e.update(RAYON_NUM_THREADS="4", BBMON_SCRATCH=ck.WORK)
        cmd = [os.path.join(san_build(r["tool"]), "c08"), "--only", r["case_seed"]]
    elif r["kind"] == "python":
        pkg, env = python_env(r["profile"])
        e = ck.env_base()
        e.update(env, RAYON_NUM_THREADS="2")
        cmd = ["python3-vt", os.path.join(ck.HARNESS, "py", "c23.py"), "--only", r["case_seed"]]
    elif r["kind"] == "miri":
        e = miri_env(int(r["seed"]) * 64)
        e.update(BBMON_WORKLOADS=r["workloads"], BBMON_SCRATCH=ck.WORK)
        cmd = ["cargo", "miri", "run", "--offline", "--bin", "c08", "--", "--only", r["case_seed"]]
    else:
        print(json.dumps(r, indent=1))
        return 0
    return subprocess.run(cmd, env=e, cwd=ck.HARNESS, stdout=subprocess.DEVNULL).returncode


def python_env(profile):
    """A copy of the Python package in which the library is the shim of harness/py, in front of the real one."""
    bindir = ck.build(["bitboost_gen_config_csv", "run_bitboost"], profile)
    pkg = os.path.join(ck.WORK, "C23-pkg-%s-%d" % (profile, os.getpid()))
    shutil.rmtree(pkg, ignore_errors=True)
    shutil.copytree("/repo/python/bitboost", os.path.join(pkg, "bitboost"), ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    shutil.copy("/repo/python/bitboost_config.gen.csv", pkg)
    real = os.path.join(bindir, "deps", "libbitboost.so")
    if not os.path.exists(real):
        raise ck.Inconclusive("the build produced no libbitboost.so")
    shim, doc = os.path.join(pkg, "bitboost", "libbitboost.so"), os.path.join(pkg, "doc.csv")
    for cmd in (["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(ck.HARNESS, "py", "shim.c"), "-ldl", "-lpthread"],
                [os.path.join(bindir, "bitboost_gen_config_csv"), doc]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ck.Inconclusive("%s failed: %s" % (cmd[0], p.stdout[-500:]))
    return pkg, dict(BB_PKG=pkg, BB_SHIM=shim, BB_REAL=real, BB_DOC=doc, PYTHONDONTWRITEBYTECODE="1")


def c23(pid, spec, tier, seed, report):
    for run in spec["runs"]:
        if ck.unlisted(pid, report):
            return
        pkg, env = python_env(run["profile"])
        try:
            n = len(report.violations)
            ck.run_workers(pid, run, tier, seed, report, bindir=os.path.join(ck.HARNESS, "py"), wrapper=("python3-vt",), extra_env=env)
            for v in report.violations[n:]:
                v["replay"]["kind"] = "python"
        finally:
            shutil.rmtree(pkg, ignore_errors=True)
