#!/usr/bin/env python3
"""Decide one property:  check.py C02            (tier and seed from VERIF_TIER, VERIF_SEED)
                         check.py --replay FILE  (run the case of a replay file again)
                         check.py --setup        (build everything)
Exit 0: held on everything observed; 1: VIOLATION line; 2: the check itself failed."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, THOROUGH_FACTOR
REPO = "/repo"
BUILD = os.path.join(V, "build")
JOBS = os.cpu_count() or 4
T0 = time.time()


class Broken(Exception):
    """The check cannot give an answer."""


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def sources():
    out = []
    for top in (os.path.join(REPO, "lib"), os.path.join(V, "harness"),
                os.path.join(V, "tbb_shim"), os.path.join(V, "units_shim"),
                os.path.join(V, "cmake")):
        for root, dirs, files in os.walk(top):
            dirs[:] = [d for d in dirs if d not in ("build", ".git", "python", "benchmark", "test")
                       or root.endswith("/cmake")]
            for f in files:
                if f.endswith((".h", ".hpp", ".cpp", ".tcc", ".in", ".txt", ".cmake", ".tdef", ".h.in")) or True:
                    p = os.path.join(root, f)
                    if os.path.isfile(p) and not os.path.islink(p):
                        out.append(p)
    return sorted(out)


def digest(paths):
    d = {}
    for p in paths:
        with open(p, "rb") as f:
            d[p] = hashlib.sha1(f.read()).hexdigest()
    return d


def build(cfg, targets):
    """Bring the given executables of one configuration up to date with /repo."""
    tree = os.path.join(BUILD, cfg)
    os.makedirs(tree, exist_ok=True)
    stamp = os.path.join(tree, "sources.json")
    now = digest(sources())
    old = {}
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = json.load(f)
        # ninja goes by time stamps; make a changed content look changed even
        # where a copy or checkout left an old time on the file
        built = os.path.getmtime(stamp)
        for p, h in now.items():
            if old.get(p) != h and os.path.getmtime(p) <= built:
                os.utime(p)
    log = os.path.join(tree, "build.log")
    with open(log, "w") as out:
        def run(*argv):
            p = subprocess.run(argv, stdout=out, stderr=subprocess.STDOUT)
            return p.returncode == 0
        ok = True
        if not os.path.exists(os.path.join(tree, "build.ninja")):
            ok = run("cmake", "-S", os.path.join(V, "cmake"), "-B", tree, "-G", "Ninja",
                     "-DCMAKE_CXX_COMPILER=/usr/bin/clang++", "-DVSAN=" + cfg,
                     "-DCMAKE_EXE_LINKER_FLAGS=-fuse-ld=lld",
                     "-DCMAKE_SHARED_LINKER_FLAGS=-fuse-ld=lld")
        ok = ok and run("ninja", "-C", tree, "-j", str(JOBS), *targets)
    if not ok:
        with open(log, errors="replace") as f:
            text = f.read()
            errors = [l[:600] for l in text.splitlines() if "error:" in l or "undefined" in l]
            say("\n".join(errors[:20]) or text[-3000:])
        raise Broken(f"{cfg}: build of {' '.join(targets)} failed, see {log}")
    with open(stamp, "w") as f:
        json.dump(now, f)


# ---------------------------------------------------------------- running
SAN = "exitcode=99:abort_on_error=0:handle_abort=1"
ENV = {
    "ASAN_OPTIONS": SAN + ":detect_leaks=1:detect_stack_use_after_return=0:"
                    "strict_init_order=1:check_initialization_order=1:"
                    "max_allocation_size_mb=4000:allocator_may_return_null=0:quarantine_size_mb=64:"
                    "malloc_context_size=12",
    "UBSAN_OPTIONS": SAN + ":print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": SAN + ":halt_on_error=1:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": SAN,
}
SIGNATURE = re.compile(
    r"(AddressSanitizer: [\w-]+|LeakSanitizer: detected memory leaks|ThreadSanitizer: [\w -]+|runtime error: [^\n]*|"
    r"VF-HANG|terminate called[^\n]*|libc\+\+abi[^\n]*)")


def site(text):
    """First frame inside /repo of a sanitizer report."""
    for m in re.finditer(r"(?m)^\s*#\d+ 0x[0-9a-f]+ (?:in )?(.*)$|^\s*#\d+ (.*)$", text):
        fr = m.group(1) or m.group(2) or ""
        if "scipp" in fr and "vf::" not in fr and "vf_suite" not in fr:
            return re.sub(r"\(.*", "", fr)[:120].strip()
    return ""


class Shard:
    def __init__(self, cfg, exe, jobs, seed, thorough, ident, extra=()):
        self.cfg, self.exe, self.seed, self.thorough = cfg, exe, seed, thorough
        self.ident, self.extra = ident, list(extra)
        self.jobs = jobs            # [[suite, from, to, step], ...]
        self.dir = os.path.join(BUILD, "run", ident)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.reports, self.failures, self.restarts, self.leak_off = [], [], 0, False
        self.proc, self.n = None, 0

    def start(self):
        self.n += 1
        self.rep = os.path.join(self.dir, f"report{self.n}.json")
        self.sta = os.path.join(self.dir, f"status{self.n}")
        self.err = os.path.join(self.dir, f"stderr{self.n}")
        argv = [os.path.join(BUILD, self.cfg, "bin", self.exe), "--seed", str(self.seed),
                "--report", self.rep, "--status", self.sta, *self.extra]
        if self.thorough:
            argv.append("--thorough")
        for s, a, b, k in self.jobs:
            argv += ["--suite", s, "--from", str(a), "--to", str(b), "--step", str(k)]
        env = {**os.environ, **ENV}
        if self.leak_off:
            env["ASAN_OPTIONS"] += ":detect_leaks=0"
        self.errf = open(self.err, "wb")
        self.started = time.time()
        self.proc = subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=self.errf, env=env,
                                     cwd=self.dir, start_new_session=True)

    def status(self):
        try:
            with open(self.sta, "rb") as f:
                b = f.read()
            return (b[:64].split(b"\0")[0].decode(), int.from_bytes(b[64:72], "little"),
                    int.from_bytes(b[72:80], "little"))
        except OSError:
            return "", 0, 0

    def finish(self):
        """Digest the process that just ended; true if the shard is complete."""
        rc = self.proc.returncode
        self.errf.close()
        with open(self.err, errors="replace") as f:
            text = f.read()
        if rc in (0, 1) or os.path.exists(self.rep):
            try:
                with open(self.rep) as f:
                    r = json.load(f)
                self.reports.append(r)
                self.failures += [dict(x) for x in r["failures"]]
            except (OSError, ValueError) as e:
                raise Broken(f"{self.exe}: unreadable report {self.rep}: {e}")
        if rc in (0, 1):
            return True
        if rc == 3:
            raise Broken(f"{self.exe}: {text[-500:]}")
        if rc in (-signal.SIGKILL, -signal.SIGTERM):
            raise Broken(f"{self.exe}: killed (signal {-rc}), probably out of memory")
        if "LeakSanitizer has encountered a fatal error" in text:
            if self.leak_off:
                raise Broken(text[-500:])
            self.leak_off = True
            return self.status()[2] == 1
        suite, index, done = self.status()
        m = SIGNATURE.search(text)
        what = m.group(1) if m else f"process ended with status {rc}"
        if "ThreadSanitizer: out of memory" in text or "unexpected memory mapping" in text \
                or "out-of-memory" in text and "allocat" in text and "max_allocation" not in text and False:
            raise Broken(what)
        kind = ("leak" if "LeakSanitizer" in what else "hang" if rc == 97 else
                "race" if "ThreadSanitizer" in what else
                "undefined" if "runtime error" in what else
                "memory" if "AddressSanitizer" in what else "crash")
        if done:
            index = -1
        at = site(text[m.start():] if m else text)
        self.failures.append({"suite": suite, "index": index, "key": "sanitizer-" + kind,
                              "msg": f"{what} at {at}", "log": text[-20000:]})
        self.restarts += 1
        if done or self.restarts > 12:
            return True
        # go on behind the case that crashed
        rest, seen = [], False
        for s, a, b, k in self.jobs:
            if seen:
                rest.append([s, a, b, k])
            elif s == suite and a <= index < b and (index - a) % k == 0:
                seen = True
                if index + k < b:
                    rest.append([s, index + k, b, k])
        if not seen:
            raise Broken(f"{self.exe} ended with status {rc} outside any case: {text[-800:]}")
        self.jobs = rest
        return not rest


def run_shards(shards, width, limit):
    waiting, running = list(shards), []
    try:
        while waiting or running:
            while waiting and len(running) < width:
                s = waiting.pop(0)
                s.start()
                running.append(s)
            for s in list(running):
                if s.proc.poll() is not None:
                    running.remove(s)
                    if not s.finish():
                        waiting.insert(0, s)
            if time.time() - T0 > limit:
                raise Broken(f"no answer within {limit} s: " + ", ".join(
                    f"{s.exe} {s.status()}" for s in running))
            time.sleep(0.02)
    finally:
        for s in running:
            try:
                os.killpg(s.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            s.proc.wait()


# ---------------------------------------------------------------- findings
def known(pid):
    """Lines `finding: property=ID key=KEY match=REGEX :: what fails`."""
    out = []
    with open(os.path.join(V, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) suite=(\S+) index=(\d+) key=(\S+) match=/(.*)/ :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"suite": m.group(2), "index": int(m.group(3)), "key": m.group(4),
                            "match": re.compile(m.group(5)), "text": m.group(6)})
    return out


def decide(pid, tier, seed):
    spec = CHECKS[pid]
    thorough = tier == "thorough"
    finds = known(pid)
    limit = 840 if not thorough else 4 * 3600
    for cfg in sorted({r["cfg"] for r in spec["runs"]}):
        build(cfg, sorted({r["exe"] for r in spec["runs"] if r["cfg"] == cfg}))
    built = time.time() - T0
    shards = []
    for ri, r in enumerate(spec["runs"]):
        width = r.get("shards", JOBS)
        for w in range(width):
            jobs = []
            for suite, n in r["suites"].items():
                total = n * (r.get("factor", THOROUGH_FACTOR) if thorough else 1)
                jobs.append([suite, w, total, width])
            jobs = [j for j in jobs if j[1] < j[2]]
            if jobs:
                shards.append(Shard(r["cfg"], r["exe"], jobs, seed, thorough, f"{pid}/{ri}.{w}",
                                    r.get("args", ())))
    width = max(1, spec.get("parallel", JOBS))
    run_shards(shards, width, limit)
    failures = []
    for s in shards:
        for f in s.failures:
            failures.append({**f, "cfg": s.cfg, "exe": s.exe, "extra": s.extra})
    new, old = [], set()
    for f in failures:
        for i, k in enumerate(finds):
            if f["key"] == k["key"] and k["match"].search(f["msg"]):
                old.add(i)
                break
        else:
            new.append(f)
    for i, k in enumerate(finds):
        if i in old:
            say(f"KNOWN-FINDING: property={pid} {k['text']}")
    reports = [r for s in shards for r in s.reports]
    distinct, obs, samples = set(), {}, []
    for r in reports:
        distinct.update(r["distinct"])
        for k, v in r["obs"].items():
            obs[k] = obs.get(k, 0) + v
        samples += r["samples"][:1]
    evaluations = sum(r["evaluations"] for r in reports)
    par = {k: sum(r["parallel"][k] for r in reports) for k in ("calls", "chunks", "multi", "sorts")}
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
           "samples": (samples or ["none"])[:6], "oracle_comparisons": sum(r["checks"] for r in reports),
           "observed": dict(sorted(obs.items())), "parallel_regions": par,
           "sanitizers": sorted({r["cfg"] for r in spec["runs"]}), "build_s": round(built, 1),
           "known_findings_seen": len(old)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": cov, "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        for n, f in enumerate(new[:5]):
            path = os.path.join(V, "replay", f"{pid}-{n}.json")
            with open(path, "w") as out:
                json.dump({"property": pid, "seed": seed, "thorough": thorough, **f}, out, indent=1)
            say(f"  {f['exe']}/{f['cfg']} {f['suite']} case {f['index']}: {f['key']}: {f['msg'][:1500]}")
            say(f"VIOLATION property={pid} replay={path}")
        return 1
    need = spec.get("min_observed", {})
    for k, n in need.items():
        if obs.get(k, 0) < n:
            raise Broken(f"the run observed {obs.get(k, 0)} of {k}, expected at least {n}")
    if not distinct or not cov["oracle_comparisons"]:
        raise Broken("the run observed nothing")
    say(f"{pid}: {evaluations} cases, {cov['oracle_comparisons']} comparisons, {len(distinct)} distinct "
        f"non-trivial, {round(time.time() - T0, 1)} s ({round(built, 1)} s building)")
    return 0


COMMON_ASSUMPTIONS = [
    "LLNL-Units is replaced by a stand-in (units_shim) because the library is not installed",
    "tbb::parallel_for/parallel_sort are replaced by a stand-in that picks the partition, order and threads",
    "the compiler and sanitizer run-time are trusted; optimisation level -O0/-O1"]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    build(r["cfg"], [r["exe"]])
    idx = max(r["index"], 0)
    s = Shard(r["cfg"], r["exe"], [[r["suite"], idx, idx + 1, 1]], r["seed"], r["thorough"], "replay",
              r.get("extra", ()))
    run_shards([s], 1, 3600)
    for f in s.failures:
        say(f"{f['key']}: {f['msg']}")
        if "log" in f:
            say(f["log"])
    return 1 if s.failures else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            for cfg in ("asan", "tsan"):
                exes = sorted({r["exe"] for c in CHECKS.values() for r in c["runs"] if r["cfg"] == cfg})
                if exes:
                    build(cfg, exes)
                    say(f"{cfg}: {' '.join(exes)} built after {round(time.time() - T0)} s")
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in a:
            tier = "thorough"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        try:
            return decide(a[0], tier, seed)
        except Broken as e:
            if "failed, see" in str(e) or time.time() - T0 > 400:
                raise
            say(f"retrying once: {e}")
            return decide(a[0], tier, seed)
    except Broken as e:
        say(f"check failed: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
