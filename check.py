#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks: check.py ID | --setup | --replay FILE | --list

Verdicts: exit 0 held on everything explored; exit 1 with a VIOLATION line; exit 2 inconclusive
(build failure, time-out, out of memory, harness error, too few observations)."""
import glob, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
WORK = os.path.join(VERIF, "work")
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


class Inconclusive(Exception):
    pass


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUST_LOG", "RUSTC_WRAPPER",
              "MIRIFLAGS", "BBMON_VERBOSE"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    return e


def drop_fingerprints(target):
    # cargo judges freshness by mtime, which a copy can leave old: always recheck the code under test
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "bitboost-*")) + \
            glob.glob(os.path.join(target, "*", "*", ".fingerprint", "bitboost-*")):
        shutil.rmtree(d, ignore_errors=True)


def cargo(args, target=TARGET, env=None, timeout=780, what="build"):
    e = env_base()
    e["CARGO_TARGET_DIR"] = target
    e.update(env or {})
    try:
        p = subprocess.run(["cargo"] + args, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("%s timed out" % what)
    if p.returncode != 0:
        lines = p.stdout.splitlines()
        errs = [i for i, l in enumerate(lines) if l.startswith("error")]
        show = lines[errs[0]:errs[0] + 40] if errs else lines[-40:]
        raise Inconclusive("%s failed:\n%s" % (what, "\n".join(show)))
    return p.stdout


def build(bins, profile="release"):
    args = ["build", "--offline", "--profile", profile]
    for b in sorted(set(bins)):
        args += ["--bin", b]
    cargo(args, what="cargo build (%s)" % profile)
    return os.path.join(TARGET, "release" if profile == "release" else profile)


def known_findings():
    """sig of every open finding, per property (fixed entries suppress nothing)."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split(" :: ")[0].split()[1:] if "=" in x)
                out.setdefault(f["property"], {})[f["sig"]] = line.split(" :: ", 1)[-1].strip()
    return out


def unlisted(pid, report):
    known = known_findings().get(pid, {})
    return [v for v in report.violations if v["sig"] not in known]


class Report:
    """What a check observed, merged over its workers."""
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.violations = []   # dict(sig, detail, replay=dict)
        self.workers = []
        self.notes = []

    def merge(self, r, run):
        self.evaluations += r["evaluations"]
        self.distinct.update(r["distinct"])
        for k, v in r["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in r["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, 0), v)
        self.samples.extend(r["samples"])
        for v in r["violations"]:
            rep = dict(kind="worker", bin=run["bin"], profile=run["profile"], env=run["env"], rayon=run["rayon"], case_seed=v["case_seed"])
            self.violations.append(dict(sig=v["sig"], detail=v["detail"], replay=rep))


def run_workers(pid, run, tier, seed, report, bindir=None, wrapper=(), case_cpu=None, extra_env=None):
    ti = 0 if tier == "quick" else 1
    cases, tlimit, shards = run["cases"][ti], run["time"][ti], run["shards"]
    if cases == 0:
        return
    if case_cpu is None:
        case_cpu = 150 if tier == "quick" else 900
    bindir = bindir or os.path.join(TARGET, "release" if run["profile"] == "release" else run["profile"])
    work = os.path.join(WORK, "%s-%s-%s-%d" % (pid, run["bin"], run["profile"], os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    e = env_base()
    e["RAYON_NUM_THREADS"] = str(run["rayon"])
    e["BBMON_SCRATCH"] = work
    e["BBMON_BINDIR"] = bindir
    e.update(run["env"])
    e.update(extra_env or {})
    for s in range(shards):
        out, jr, err = (os.path.join(work, "%s%d" % (x, s)) for x in ("out", "journal", "err"))
        cmd = list(wrapper) + [os.path.join(bindir, run["bin"]), "--seed", str(seed), "--cases", str(cases), "--time", str(tlimit),
                               "--out", out, "--journal", jr, "--shard", "%d/%d" % (s, shards), "--tier", tier,
                               "--case-cpu", str(case_cpu)]
        procs.append((s, subprocess.Popen(cmd, env=e, cwd=work, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                          stderr=open(err, "wb"), start_new_session=True), out, jr, err))
    deadline = time.time() + tlimit + case_cpu + 60
    trouble = []
    for s, p, out, jr, err in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            trouble.append("worker %d timed out" % s)
            continue
        errtxt = open(err, errors="replace").read()
        if rc < 0 or rc not in (0, 1, 3):
            sig = -rc if rc < 0 else rc - 128
            case = open(jr).read().split("\n")[0].strip() if os.path.exists(jr) else ""
            if sig in CRASH_SIGNALS and case:
                name = signal.Signals(sig).name
                rep = dict(kind="worker", bin=run["bin"], profile=run["profile"], env=run["env"], rayon=run["rayon"], case_seed=case)
                report.violations.append(dict(sig="crash:%s" % name, detail="worker killed by %s; stderr: %s" % (name, errtxt[-400:]), replay=rep))
            else:
                trouble.append("worker %d ended with status %d: %s" % (s, rc, errtxt[-400:]))
            continue
        try:
            r = json.load(open(out))
        except (OSError, ValueError) as ex:
            trouble.append("worker %d: unreadable report (%s) %s" % (s, ex, errtxt[-400:]))
            continue
        report.merge(r, run)
        report.workers.append(dict(bin=run["bin"], profile=run["profile"], shard=s, cases=r["cases"], evaluations=r["evaluations"], wall_s=r["wall_s"]))
        if rc == 3 or r["harness_errors"]:
            trouble.append("worker %d: harness error %s" % (s, r["harness_errors"][:2]))
    shutil.rmtree(work, ignore_errors=True)
    if trouble:
        report.notes.extend(trouble)
        if not unlisted(pid, report):
            raise Inconclusive("; ".join(trouble[:3]))


def write_evidence(pid, spec, tier, seed, report, wall, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = report.samples
    step = max(1, len(samples) // 8)
    cov = dict(evaluations=report.evaluations, distinct_nontrivial=len(report.distinct), rule=spec["rule"],
               samples=samples[::step][:8] or ["(none)"], observed=report.counters, maxima=report.maxima,
               workers=len(report.workers), notes=report.notes)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(wall, 2), violations=nviol)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def decide(pid, spec, tier, seed, report, start):
    known = known_findings().get(pid, {})
    new, seen = [], set()
    for v in report.violations:
        if v["sig"] in seen:
            continue
        seen.add(v["sig"])
        if v["sig"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v["sig"]]))
        else:
            new.append(v)
    write_evidence(pid, spec, tier, seed, report, time.time() - start, len(new))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for k, v in enumerate(new[:6]):
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, seed, k))
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, sig=v["sig"], detail=v["detail"], **v["replay"]), f, indent=1)
            print("  %s: %s" % (v["sig"], v["detail"][:600].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if len(report.distinct) < spec["floor"]:
        raise Inconclusive("only %d distinct non-trivial observations (floor %d)" % (len(report.distinct), spec["floor"]))
    print("%s: held on %d evaluations, %d distinct non-trivial; %s" % (pid, report.evaluations, len(report.distinct),
          " ".join("%s=%d" % kv for kv in sorted(report.counters.items()))))
    return 0


def run_all(pid, spec, tier, seed, report):
    ti = 0 if tier == "quick" else 1
    for profile in sorted({r["profile"] for r in spec["runs"] if r["cases"][ti]}):
        build([r["bin"] for r in spec["runs"] if r["profile"] == profile] +
              (spec.get("also_build", []) if profile == "release" else []), profile)
    for r in spec["runs"]:
        run_workers(pid, r, tier, seed, report)
        if unlisted(pid, report):
            break


def check(pid):
    from spec import SPEC
    spec = SPEC[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    report = Report()
    try:
        try:
            ev = os.path.join(VERIF, "evidence", pid + ".json")
            if os.path.exists(ev):
                os.remove(ev)
            drop_fingerprints(TARGET)
            special = spec.get("special")
            if special:
                import special as sp
                getattr(sp, special)(pid, spec, tier, seed, report)
            else:
                run_all(pid, spec, tier, seed, report)
        except Inconclusive:
            if not unlisted(pid, report):
                raise
        return decide(pid, spec, tier, seed, report, start)
    except Inconclusive as ex:
        print("%s: inconclusive: %s" % (pid, ex))
        write_evidence(pid, spec, tier, seed, report, time.time() - start, 0)
        return 2


def setup():
    """Builds every worker once, to show that the framework builds from the committed files."""
    from spec import SPEC
    drop_fingerprints(TARGET)
    for profile in ("release", "checked"):
        bins = [r["bin"] for s in SPEC.values() for r in s["runs"] if r["profile"] == profile and not r["bin"].endswith(".py")]
        if profile == "release":
            bins += [b for s in SPEC.values() for b in s.get("also_build", [])]
        if bins:
            build(bins, profile)
    print("setup: workers built")
    return 0


def replay(path):
    r = json.load(open(path))
    if r["kind"] != "worker":
        import special as sp
        return sp.replay(r)
    drop_fingerprints(TARGET)
    bindir = build([r["bin"]], r["profile"])
    e = env_base()
    e["RAYON_NUM_THREADS"] = str(r["rayon"])
    e["BBMON_SCRATCH"] = WORK
    e["BBMON_BINDIR"] = bindir
    os.makedirs(WORK, exist_ok=True)
    e.update(r["env"])
    return subprocess.run([os.path.join(bindir, r["bin"]), "--only", r["case_seed"], "--tier", r["tier"]], env=e, cwd=WORK,
                          stdout=subprocess.DEVNULL).returncode


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        try:
            return setup()
        except Inconclusive as ex:
            print("setup: %s" % ex)
            return 2
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2:
        return check(sys.argv[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
