#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's current tree,
runs its seeded cases in shards under sanitizers and monitors, decides, and
writes evidence/<id>.json.   run.py ID [--tier quick|thorough] [--seed N] [--scale F]

exit 0: held on everything explored     exit 1: VIOLATION line printed
exit 2: no verdict (the tree does not build, or a run could not be completed)

When the library and all of its headers compile but the harness does not, the
operations under observation cannot be instantiated any more: nothing to run,
and a violation of the property that promises them.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
from uses import USES

REPO = os.environ.get("KV_REPO", "/repo")
INC = os.path.join(REPO, "src/korin/core/public")
PRIV = os.path.join(REPO, "src/korin/core/private")
BASE = ["-std=c++17", "-mavx2", "-DBUILD_DEBUG", "-DPLATFORM_LINUX=1", "-fno-omit-frame-pointer", "-pthread", "-I" + os.path.join(HERE, "h"), "-I" + INC, '-DKV_REPO_DIR="%s"' % REPO, '-DKV_HARNESS_DIR="%s/h"' % HERE]
UB = ["-fno-sanitize-recover=all", "-fno-sanitize=null,nonnull-attribute,vptr"]
SAN = {
    "asan": ["-Og", "-g1", "-fsanitize=address,undefined"] + UB,
    "asanO2": ["-O2", "-g1", "-fsanitize=address,undefined"] + UB,
    "asan-noalign": ["-Og", "-g1", "-fsanitize=address,undefined"] + UB + ["-fno-sanitize=alignment"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
    "plainO0": ["-O0", "-g1"],
    # The other build configurations of the project
    "release": ["-UBUILD_DEBUG", "-DBUILD_RELEASE", "-DNDEBUG", "-Ofast", "-g1", "-w"],
    "release-ieee": ["-UBUILD_DEBUG", "-DBUILD_RELEASE", "-DNDEBUG", "-O3", "-g1", "-w"],
    "release-asan": ["-UBUILD_DEBUG", "-DBUILD_RELEASE", "-DNDEBUG", "-O1", "-g1", "-w", "-fsanitize=address,undefined"] + UB,
    "dev": ["-UBUILD_DEBUG", "-DBUILD_DEVELOPMENT", "-DNDEBUG", "-O2", "-g1", "-w"],
    "bare": ["-UBUILD_DEBUG", "-O0", "-g1", "-w"],
    "memcheck": ["-O1", "-g", "-w", "-DKV_MEMCHECK=1"],
}
WRAP = {"memcheck": ["valgrind", "-q", "--error-limit=no", "--track-origins=yes", "--leak-check=no", "--suppressions=" + os.path.join(HERE, "h", "memcheck.supp")]}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=2500:allocator_may_return_null=1:handle_abort=1:handle_sigfpe=1:exitcode=77:detect_stack_use_after_return=0:symbolize=1:malloc_context_size=8:quarantine_size_mb=32:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C.UTF-8",
})
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD"): ENV.pop(k, None)
JOBS = 8
START = time.time()

def log(*a):
    print(*a, flush=True)

LIBS = {"hal": lambda: [os.path.join(PRIV, "hal", f) for f in sorted(os.listdir(os.path.join(PRIV, "hal"))) if f.endswith(".cpp")],
        "regex": lambda: [os.path.join(PRIV, "regex", f) for f in sorted(os.listdir(os.path.join(PRIV, "regex"))) if f.endswith(".cpp")],
        "math": lambda: [os.path.join(PRIV, "math", f) for f in sorted(os.listdir(os.path.join(PRIV, "math"))) if f.endswith(".cpp")]}

class Unusable(Exception): pass
CODE_ERROR = re.compile(r"^[^\s:]+:\d+:(?:\d+:)? error: .*|^.*undefined reference to .*|^.*static assertion failed.*", re.M)

def build_all(bins, out):
    """Compiles every needed object in parallel and links. Returns {key: path} or raises."""
    objs, links = {}, []
    for n, b in enumerate(bins):
        mine = []
        o = os.path.join(out, "h%d.o" % n)
        objs[o] = ["g++"] + BASE + SAN[b.san] + list(b.defs) + list(b.flags) + ["-c", os.path.join(HERE, "h", b.src), "-o", o]
        mine.append(o)
        for x in b.extra:
            if x == "each-header":
                for k, h in enumerate(checks.HEADERS):
                    if not os.path.exists(os.path.join(INC, h)): continue
                    c = os.path.join(out, "alone%d_%d.cpp" % (n, k)); o = c[:-4] + ".o"
                    with open(c, "w") as f: f.write('#include "%s"\nvoid kvUse%d_%d() { %s }\n' % (h, n, k, USES.get(h, "")))
                    objs[o] = ["g++"] + BASE + SAN[b.san] + ["-w", "-c", c, "-o", o]
                    mine.append(o)
                continue
            o = os.path.join(out, "x%d_%s.o" % (n, x[:-4]))
            objs[o] = ["g++"] + BASE + SAN[b.san] + list(b.defs) + list(b.flags) + ["-c", os.path.join(HERE, "h", x), "-o", o]
            mine.append(o)
        for lib in b.libs:
            for src in LIBS[lib]():
                o = os.path.join(out, "l_%s_%s.o" % (b.san, os.path.basename(src)[:-4]))
                objs[o] = ["g++"] + BASE + SAN[b.san] + ["-c", src, "-o", o]
                mine.append(o)
        links.append((b, os.path.join(out, "bin%d" % n), mine))
    broken = threading.Event()
    def run(cmd):
        """Output of a failed command, nothing otherwise. The first failure ends the others."""
        if broken.is_set(): return None
        with tempfile.TemporaryFile() as text:
            p = subprocess.Popen(cmd, stdout=text, stderr=text, env=ENV, start_new_session=True)
            end = time.time() + 600; rc = None
            while rc is None and not broken.is_set() and time.time() < end:
                try: rc = p.wait(0.2)
                except subprocess.TimeoutExpired: pass
            if rc is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                if broken.is_set(): return None
                raise RuntimeError("build takes too long: %s" % " ".join(cmd))
            if rc == 0: return None
            broken.set(); text.seek(0)
            return cmd, text.read().decode("utf-8", "replace")
    def everything(cmds):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(run, cmds):
                if r: yield r
    for cmd, said in everything(objs.values()):
        text = "build failed: %s\n%s\n\n%s" % (" ".join(cmd), "\n".join(CODE_ERROR.findall(said)[:20]), said[:6000])
        if CODE_ERROR.search(said) and tree_builds(out): raise Unusable(text)
        raise RuntimeError(text)
    for cmd, said in everything([["g++"] + SAN[b.san] + ["-pthread", "-o", p] + m for b, p, m in links]):
        text = "link failed: %s\n%s" % (" ".join(cmd), said[:6000])
        if "undefined reference to" in said and tree_builds(out): raise Unusable(text)
        raise RuntimeError(text)
    return {b.key(): p for b, p, m in links}

def tree_builds(out):
    """Whether every header the harnesses rely on and every source of the library compiles on its own terms."""
    cmds = [["g++"] + BASE + ["-fsyntax-only", os.path.join(HERE, "h", "headers.cpp")]] + [["g++"] + BASE + ["-fsyntax-only", s] for l in LIBS.values() for s in l()]
    return all(subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, timeout=600).returncode == 0 for c in cmds)

stop = threading.Event()
procs, plock = set(), threading.Lock()

def execute(cmd, wall):
    """Runs a command in its own process group. Returns (rc or None on timeout, stderr text)."""
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True)
        with plock: procs.add(p)
        try: rc = p.wait(wall)
        except subprocess.TimeoutExpired: rc = None
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
        with plock: procs.discard(p)
        err.seek(0, 2); size = err.tell()
        err.seek(0); data = err.read(200000)
        if size > 400000: err.seek(size - 200000)
        data += err.read(200000)
        return rc, data.decode("utf-8", "replace")

SANRE = re.compile(r"==\d+== (Conditional jump|Use of uninitialised|Syscall param|Invalid \w+|Mismatched free|Source and destination overlap|Jump to the invalid|Process terminating)|ERROR: AddressSanitizer: ([\w-]+)|runtime error: ([^\n]*)|WARNING: ThreadSanitizer: ([\w -]+)|ERROR: ThreadSanitizer: ([\w -]+)|AddressSanitizer:(DEADLYSIGNAL)")
KVRE = re.compile(r"^(KVFAIL|KVDEATH|KVHANG) suite=(\S+) seed=(\d+) case=(\d+) key=(\S+)", re.M)

def classify(rc, err):
    """-> (kind, key, case)   kind: ok | violation | retry | error"""
    kv = KVRE.search(err)
    case = int(kv.group(4)) if kv else None
    if rc == 0: return "ok", None, None
    if rc == 4: return "error", "usage", None
    if "hard rss limit exhausted" in err: return "retry", "memory-runaway", case
    if kv and kv.group(1) == "KVFAIL":
        if kv.group(5).startswith("harness"): return "error", kv.group(5), case
        return "violation", kv.group(5), case
    if kv and kv.group(1) == "KVHANG": return "retry", "hang", case
    m = SANRE.search(err)
    if m:
        g = next(x for x in m.groups() if x)
        if "out-of-memory" in g or "allocation" in g: return "retry", g, case
        return "violation", re.sub(r"[^\w-]+", "-", g)[:60].strip("-"), case
    if kv: return "violation", "died", case
    return "retry", "killed" if rc is None or rc < 0 else "exit-%d" % rc, case

class Check:
    def __init__(self, pid, tier, seed, scale):
        self.pid, self.tier, self.seed, self.scale = pid, tier, seed, scale
        self.spec = checks.CHECKS[pid]
        self.out = os.path.join(HERE, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True); os.makedirs(self.out)
        self.violations, self.errors, self.known, self.notes = [], [], [], []
        self.stats = {"evals": 0, "nontrivial": 0, "distinct": 0, "states": 0, "checks": 0, "events": 0}
        self.counters, self.samples, self.perjob = {}, [], {}
        self.lock = threading.Lock()
        self.limit = 780 if tier == "quick" else float(os.environ.get("KV_LIMIT", "21600"))
        self.knowns = load_known(pid)

    def left(self): return self.limit - (time.time() - START)

    def add_violation(self, job, path, case, key, err):
        with self.lock:
            n = len(self.violations)
            rp = os.path.join(self.out, "violation-%d.txt" % n)
            with open(rp, "w") as f:
                f.write("property %s, suite %s, seed %d, case %s, key %s\n" % (self.pid, job["suite"], self.seed, case, key))
                f.write("reproduce: cd %s && python3 run.py %s --seed %d --tier %s --replay %s:%s\n\n" % (HERE, self.pid, self.seed, self.tier, job["name"], case))
                f.write(err[:60000])
            self.violations.append((key, rp))
            log("VIOLATION property=%s replay=%s" % (self.pid, rp))
            log("  suite=%s case=%s key=%s" % (job["suite"], case, key))
            for line in [l for l in err.splitlines() if l.strip()][:12]: log("  | " + line[:300])
        stop.set()

    def shard(self, job, path, lo, hi, idx):
        cpu = job.get("cpu", 30) * (1 if self.tier == "quick" else 3)
        at = lo
        retries = 0
        while at < hi and not stop.is_set():
            if self.left() < 5:
                with self.lock: self.errors.append("out of time in %s at case %d" % (job["name"], at)); return
            st = os.path.join(self.out, "st-%s-%d-%d.json" % (job["name"], idx, at))
            cmd = WRAP.get(job["bin"].san, []) + [path, "--suite", job["suite"], "--seed", str(self.seed), "--from", str(at), "--to", str(hi), "--out", st, "--cpu", str(cpu)]
            if self.tier == "thorough": cmd.append("--thorough")
            rc, err = execute(cmd, min(self.left(), job.get("wall", 600 if self.tier == "quick" else 14400)))
            if stop.is_set(): return
            kind, key, case = classify(rc, err)
            if kind == "ok": self.merge(job, st); return
            if kind == "error":
                with self.lock: self.errors.append("%s: harness error %s: %s" % (job["name"], key, err[-500:])); return
            if kind == "violation":
                self.add_violation(job, path, case, key, err); return
            # Not a verdict yet: run the case again, alone and with a larger limit
            retries += 1
            if case is None or retries > 3:
                if retries > 3 or rc is None:
                    with self.lock: self.errors.append("%s: %s without a verdict (rc %s) %s" % (job["name"], key, rc, err[-300:])); return
                # Died without naming the case: find it
                case = self.bisect(job, path, at, hi, cpu)
                if case is None: continue
            cmd = WRAP.get(job["bin"].san, []) + [path, "--suite", job["suite"], "--seed", str(self.seed), "--cpu", str(cpu * 2), "--replay", str(case)]
            if self.tier == "thorough": cmd.append("--thorough")
            rc, err2 = execute(cmd, max(60, min(self.left(), cpu * 12)))
            kind2, key2, _ = classify(rc, err2)
            if kind2 == "ok":
                with self.lock: self.notes.append("%s case %d: %s did not repeat" % (job["name"], case, key))
            elif kind2 in ("violation", "retry") and (kind2 == "violation" or key2 in ("hang", "memory-runaway", "out-of-memory") or rc is not None):
                self.add_violation(job, path, case, key2, err2); return
            else:
                with self.lock: self.errors.append("%s case %d: %s, no verdict" % (job["name"], case, key2)); return
            at = case + 1 if case >= at else at

    def bisect(self, job, path, lo, hi, cpu):
        while hi - lo > 1 and self.left() > 20:
            mid = (lo + hi) // 2
            rc, err = execute(WRAP.get(job["bin"].san, []) + [path, "--suite", job["suite"], "--seed", str(self.seed), "--from", str(lo), "--to", str(mid), "--cpu", str(cpu)] + (["--thorough"] if self.tier == "thorough" else []), min(self.left(), 300))
            if rc == 0: lo = mid
            else: hi = mid
        return lo

    def merge(self, job, st):
        with open(st) as f: d = json.load(f)
        os.unlink(st)
        with self.lock:
            pj = self.perjob.setdefault(job["name"], {"suite": job["suite"], "san": job["bin"].san, "cases": 0, "nontrivial": 0, "checks": 0, "slowest_case_cpu_s": 0, "slowest_case": 0})
            if d.get("slowest", 0) > pj["slowest_case_cpu_s"]: pj["slowest_case_cpu_s"], pj["slowest_case"] = d["slowest"], d["slowestCase"]
            pj["cases"] += d["evals"]; pj["nontrivial"] += d["nontrivial"]; pj["checks"] += d["checks"]
            for k in self.stats: self.stats[k] += d[k]
            for k, v in d["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
            if len(self.samples) < 40 and not [1 for s in self.samples if s["suite"] == job["name"]] and d["samples"]:
                self.samples.append({"suite": job["name"], "case": d["samples"][0]})

    def run_known(self, path_of):
        for k in self.knowns:
            job = next((j for j in self.spec["probes"] if j["suite"] == k["probe"]), None)
            if not job: self.errors.append("no probe %s" % k["probe"]); continue
            path = path_of[job["bin"].key()]
            rc, err = execute([path, "--suite", job["suite"], "--seed", "1", "--from", "0", "--to", "1", "--cpu", str(job.get("cpu", 10))], 120)
            kind, key, case = classify(rc, err)
            if kind == "ok": self.notes.append("known finding %s no longer fails" % k["probe"]); continue
            if kind == "error": self.errors.append("probe %s: %s" % (k["probe"], err[-300:])); continue
            if key == k["key"]:
                log("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])); self.known.append(k["what"])
            else: self.add_violation(job, path, case, key, err)

    def main(self, replay=None):
        jobs = []
        for j in self.spec["jobs"]:
            n = j.get(self.tier, 0)
            if self.tier == "thorough" and "thorough" not in j: n = j["quick"] * 20
            n = int(n * self.scale) or (1 if n else 0)
            if not n: continue
            jj = dict(j); jj["n"] = n; jj["name"] = j.get("name", j["suite"]) + ("@" + j["bin"].san if j["bin"].san != "asan" else ""); jobs.append(jj)
        if replay:
            name, case = replay.rsplit(":", 1)
            if name != "build": jobs = [j for j in jobs if j["name"] == name]
        bins = []
        for j in jobs + ([] if replay else self.spec.get("probes", [])):
            if j["bin"].key() not in [b.key() for b in bins]: bins.append(j["bin"])
        try: path_of = build_all(bins, self.out)
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            log("NO VERDICT: " + str(e)); return 2
        except Unusable as e:
            self.add_violation({"suite": "build", "name": "build"}, None, 0, "does-not-compile", str(e))
            self.evidence(time.time() - START); return 1
        tbuild = time.time() - START
        if replay:
            for j in jobs:
                rc, err = execute(WRAP.get(j["bin"].san, []) + [path_of[j["bin"].key()], "--suite", j["suite"], "--seed", str(self.seed), "--replay", case] + (["--thorough"] if self.tier == "thorough" else []), 600)
                log(err); log("exit", rc)
            return 0
        self.run_known(path_of)
        tasks = []
        for j in jobs:
            k = min(j.get("shards", JOBS if self.tier == "quick" else JOBS * 4), j["n"])
            for i in range(k):
                lo, hi = j["n"] * i // k, j["n"] * (i + 1) // k
                if hi > lo: tasks.append((j, path_of[j["bin"].key()], lo, hi, i))
        tasks.sort(key=lambda t: (-t[0].get("prio", 0), t[4]))
        with cf.ThreadPoolExecutor(min(JOBS, self.spec.get("parallel", JOBS))) as ex:
            fs = [ex.submit(self.shard, *t) for t in tasks]
            for f in fs: f.result()
        missing = [c for c in self.spec.get("require", []) if not self.counters.get(c)]
        if missing and not self.violations and not self.errors: self.errors.append("the workload never reached: " + ", ".join(missing))
        self.evidence(tbuild)
        for o in os.listdir(self.out):
            if not o.startswith("violation"): os.unlink(os.path.join(self.out, o))
        if self.violations: return 1
        if self.errors:
            for e in self.errors: log("NO VERDICT: " + e)
            return 2
        log("%s held: %d cases, %d monitored checks, %.1f s" % (self.pid, self.stats["evals"], self.stats["checks"], time.time() - START))
        return 0

    def evidence(self, tbuild):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"evaluations": self.stats["evals"], "distinct_nontrivial": self.stats["distinct"],
               "rule": self.spec["rule"], "samples": self.samples,
               "oracle_checks": self.stats["checks"], "operations_observed": self.stats["events"], "distinct_states_observed": self.stats["states"],
               "suites": self.perjob, "counters": dict(sorted(self.counters.items())), "build_s": round(tbuild, 1)}
        if self.known: cov["known_findings_still_failing"] = self.known
        if self.notes: cov["notes"] = self.notes
        if self.errors: cov["incomplete"] = self.errors
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - START, 2), "violations": len(self.violations), "assumptions": self.spec.get("assumptions", [])}
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(HERE, "evidence", self.pid + ".json"))

def load_known(pid):
    """known_findings.txt:   known: property=ID probe=SUITE key=KEY <what fails>"""
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) probe=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid: out.append({"probe": m.group(2), "key": m.group(3), "what": m.group(4).strip()})
    return out

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--replay")
    a = ap.parse_args()
    c = Check(a.id, a.tier, a.seed, a.scale)
    def kill(*_):
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        os._exit(2)
    signal.signal(signal.SIGTERM, kill)
    sys.exit(c.main(a.replay))
