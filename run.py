#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree together with the property's
harness, lets worker processes enumerate the bounded space, replays every
alarm in a fresh process before reporting it, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: "VIOLATION property=.. replay=..".
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, FLAVOURS  # noqa: E402

PYTHON = next((p for p in ("/opt/veriftools/pyvenv/bin/python3", "/opt/vp/venv/bin/python") if os.path.exists(p)), "python3")
JOBS = max(2, min(8, os.cpu_count() or 8))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------- build ----
def lib_sources(repo):
    out = []
    for root, _, files in os.walk(os.path.join(repo, "src")):
        for f in sorted(files):
            if f.endswith((".cpp", ".c", ".cc")):
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def walk(d, suffixes):
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith(suffixes):
                yield os.path.join(root, f)


class BuildError(Exception):
    pass


def prune(bdir, keep=150):
    """Forgets the oldest binaries and objects."""
    fs = []
    for f in os.listdir(bdir):
        p = os.path.join(bdir, f)
        try:
            if os.path.isfile(p):
                fs.append((os.stat(p).st_mtime, p))
        except OSError:
            pass
    for t, p in sorted(fs)[:-keep]:
        try:
            if t < time.time() - 1800:  # nobody links it just now
                os.unlink(p)
        except OSError:
            pass


def build(prog, flavour, repo=REPO):
    """Compiles library + harness; returns the binary (cached by content)."""
    fl = FLAVOURS[flavour]
    deps = list(walk(os.path.join(repo, "src"), (".cpp", ".c", ".cc", ".h", ".hpp")))
    deps += list(walk(os.path.join(repo, "include"), (".h", ".hpp")))
    deps += list(walk(os.path.join(HERE, "harness"), (".cpp", ".hpp")))
    key = tree_hash(deps, json.dumps([prog, fl], sort_keys=True))
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, f"{prog['name']}-{flavour}-{key}")
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="obj-", dir=bdir)
    try:
        inc = ["-I", os.path.join(repo, "include"), "-I", os.path.join(repo, "src"),
               "-I", os.path.join(HERE, "harness"), "-I", os.path.join(HERE, "harness", "common")]
        jobs = []
        hdrs = [d for d in deps if d.endswith((".h", ".hpp")) and d.startswith(repo)]
        ver = '-DLIBNPY_VERSION=0.0.0'
        for s in lib_sources(repo):
            fs = fl["lib"] + (fl.get("miniz", []) if "miniz" in s else [])
            jobs.append((s, fs + fl.get("defs", []) + prog.get("libdefs", []) + [ver]))
        for s in prog["sources"]:
            fs = fl["har"]
            if s.startswith("raw:"):  # compiled without instrumentation
                s, fs = s[4:], fl["raw"]
            jobs.append((os.path.join(HERE, "harness", s), fs + fl.get("defs", []) + prog.get("defs", [])))
        objs = []

        def compile_one(k):
            src, flags = jobs[k]
            obj = os.path.join(tmp, f"{k}.o")
            cmd = [fl["cxx"], "-std=c++17", "-c", src, "-o", obj] + flags + inc
            cached = os.path.join(bdir, "obj-" + tree_hash(hdrs + [src], json.dumps([fl["cxx"], flags])) + ".o")
            if os.path.exists(cached):
                os.utime(cached)
                return cached
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stderr[-6000:])
            if src.startswith(repo):  # shared by several checks
                os.replace(obj, cached)
                return cached
            return obj

        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(compile_one, range(len(jobs))))
        exe = os.path.join(tmp, "exe")
        cmd = [fl["cxx"], "-o", exe] + objs + fl["link"] + prog.get("link", [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stderr[-6000:])
        os.replace(exe, out)
        prune(bdir)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- workers ----
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                    "max_allocation_size_mb=9000:detect_stack_use_after_return=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:malloc_context_size=2:use_sigaltstack=0:handle_abort=1:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
    "LC_ALL": "C", "TZ": "UTC",
})


class Worker:
    def __init__(self, exe, job, tier, shard, shards, work, extra=(), tag="w"):
        self.base = os.path.join(work, f"{tag}{shard}")
        self.out, self.state, self.err = self.base + ".json", self.base + ".state", self.base + ".err"
        self.scratch = self.base + ".tmp"
        os.makedirs(self.scratch, exist_ok=True)
        self.cmd = [exe, "--shard", f"{shard}/{shards}", "--tier", tier, "--out", self.out, "--state", self.state, "--scratch", self.scratch]
        for k, v in job.get("options", {}).items():
            self.cmd += ["-D", f"{k}={v}"]
        self.cmd += list(extra)
        self.shard, self.shards = shard, shards
        env = dict(ENV)
        env.update(job.get("env", {}))
        if "ASAN_EXTRA" in env:
            env["ASAN_OPTIONS"] += ":" + env.pop("ASAN_EXTRA")
        self.p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), env=env, cwd=self.scratch, start_new_session=True)

    def wait(self, deadline):
        try:
            self.rc = self.p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            self.rc = "timeout"
        return self.rc

    def where(self):
        try:
            with open(self.state, "rb") as f:
                b = f.read(1008)
            return struct.unpack("<q", b[:8])[0], b[8:].split(b"\0")[0].decode("latin1")
        except Exception:
            return -1, "?"

    def result(self):
        with open(self.out) as f:
            return json.load(f)

    def stderr(self, n=6000):
        with open(self.err, "rb") as f:
            t = f.read().decode("latin1")
        return t if len(t) <= n else t[:n * 2 // 3] + "\n...\n" + t[-n // 3:]

    def hashes(self, kind):
        try:
            with open(self.out + "." + kind, "rb") as f:
                b = f.read()
            return set(struct.unpack(f"<{len(b) // 8}Q", b))
        except FileNotFoundError:
            return set()


def brief(err):
    for line in err.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "MC-" in line or "Assertion" in line or "ERROR:" in line:
            return line.strip()[:300]
    t = [l for l in err.splitlines() if l.strip()]
    return t[-1][:300] if t else "(no message)"


def confirm(exe, job, tier, shard, shards, index, work, limit):
    """Replays a failing member in fresh processes. Returns (mode, message, desc) or None."""
    for mode in ("only", "upto") if index < 1 << 60 else ("upto",):
        hang = 0
        for attempt in range(2):
            extra = ["--" + mode, str(index), "--cpu-limit", str(limit)]
            w = Worker(exe, job, tier, shard, shards, work, extra, tag=f"replay-{mode}{attempt}-")
            rc = w.wait(time.time() + 240)
            idx, desc = w.where()
            shutil.rmtree(w.scratch, ignore_errors=True)
            if rc == 0:
                break
            if rc == 10:
                v = [x for x in w.result()["violations"] if not x["known"]]
                return mode, v[0]["msg"], v[0]["desc"], v[0]["index"]
            if rc == 12 and index < 1 << 60:
                break
            if rc in (11, "timeout"):
                hang += 1
                if hang == 2:
                    return mode, "does not terminate (CPU-time limit reached twice)", desc, idx
                continue
            return mode, f"crashed (exit status {rc}): " + brief(w.stderr()), desc, idx
    return None


def prepare(job, tier, work):
    """Runs the job's generator once and hands its directory to the workers."""
    for name, script in job["prepare"].items():
        d = os.path.join(work, name)
        r = subprocess.run([PYTHON, os.path.join(HERE, "tools", script), d, tier], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{script} failed: {r.stderr[-3000:]}")
        job.setdefault("options", {})[name] = d
    return job


# -------------------------------------------------------------------- check ----
def scratch_root(chk):
    if "VERIF_SCRATCH" in os.environ:
        return os.environ["VERIF_SCRATCH"]
    try:
        st = os.statvfs("/dev/shm")
        if not chk.get("disk") and os.access("/dev/shm", os.W_OK) and st.f_bavail * st.f_frsize > (1 << 30):
            return "/dev/shm"
    except OSError:
        pass
    return "/tmp"


def known_for(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=" + pid + " case="):
                    case, _, what = line.split(" case=", 1)[1].rstrip("\n").partition(" what=")
                    out.append((case, what))
    except FileNotFoundError:
        pass
    return out


def run_check(pid, tier, replay=None):
    t0 = time.time()
    chk = CHECKS[pid]
    known = known_for(pid)
    work = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=scratch_root(chk))
    violations, notes, unrep = [], [], []
    tot = dict(executed=0, total=0, transitions=0, traces=0, nontrivial=0)
    counters, samples, outcomes, states = {}, [], set(), set()
    known_hit = {}
    digests = {}
    budget = chk.get("budget", {}).get(tier, 800 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    try:
        jobs = [j for j in chk["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
        exes = {}
        with cf.ThreadPoolExecutor(4) as ex:
            futs = {}
            for j in jobs:
                k = (json.dumps(j["prog"], sort_keys=True), j.get("flavour", "asan"))
                if k not in futs:
                    futs[k] = ex.submit(build, j["prog"], k[1])
            for j in jobs:
                k = (json.dumps(j["prog"], sort_keys=True), j.get("flavour", "asan"))
                try:
                    exes[id(j)] = futs[k].result()
                except BuildError as e:
                    # uses of the public interface that do not compile are violations, provided the rest does
                    if "fallback" not in j["prog"]:
                        raise
                    core = dict(j["prog"], defs=j["prog"].get("defs", []) + j["prog"]["fallback"])
                    exes[id(j)] = build(core, k[1])
                    violations.append({"property": pid, "tier": tier, "job": 0, "mode": "compile", "case": "program " + j["prog"]["name"],
                                       "message": "a use of the public interface does not compile: " +
                                       " | ".join([l for l in str(e).splitlines() if "error" in l][:4])[:1500]})
        tb = time.time() - t0
        for j in jobs:
            if "prepare" in j:
                j = prepare(j, tier, work)
        if replay:
            return do_replay(pid, chk, jobs, exes, replay, work)
        for jn, j in enumerate(jobs):
            exe = exes[id(j)]
            n = j.get("shards", JOBS)
            if tier == "thorough":
                n = j.get("shards_thorough", n)
            limit = j.get("cpu_limit", 30)
            extra = ["--cpu-limit", str(limit)]
            for c, _ in known:
                extra += ["--known", c]
            jt = time.time()
            ws = [Worker(exe, j, tier, s, n, work, extra, tag=f"j{jn}-") for s in range(n)]
            totals = []
            for w in ws:
                rc = w.wait(deadline)
                if rc in (0, 10):
                    r = w.result()
                    totals.append(r["total"])
                    for k in ("executed", "transitions", "traces", "nontrivial"):
                        tot[k] += r[k]
                    for k, v in r["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                    if len(samples) < 10:
                        samples += r["samples"][: 2 + (w.shard == 0) * 3]
                    outcomes |= w.hashes("outcomes")
                    states |= w.hashes("states")
                    digests.setdefault(j.get("digest", jn), {}).setdefault(jn, {})[w.shard] = r["digest"]
                    cand = [v for v in r["violations"] if not v["known"]]
                    for v in r["violations"]:
                        if v["known"]:
                            known_hit.setdefault(v["desc"], v["msg"])
                    cand = [(v["index"], v["desc"], v["msg"]) for v in cand[:1]]
                else:
                    idx, desc = w.where()
                    why = "hang" if rc in (11, "timeout") else f"exit status {rc}: {brief(w.stderr())}"
                    if rc == "timeout" and idx < 0:
                        raise BuildError(f"worker ran out of time outside a member ({pid})")
                    if idx < 0:  # while preparing: reported if it happens again
                        log(w.stderr())
                        idx, desc = 1 << 60, "preparation of the members"
                    cand = [(idx, desc, why)]
                    if rc == "timeout":
                        notes.append(f"worker {w.shard} of job {jn} ran out of time at member {idx}")
                for idx, desc, msg in cand:
                    if len(violations) >= 3:
                        break
                    c = confirm(exe, j, tier, w.shard, n, idx, work, limit * 4)
                    if c is None:
                        unrep.append({"job": jn, "shard": w.shard, "index": idx, "desc": desc, "msg": msg})
                        continue
                    mode, msg2, desc2, idx2 = c
                    rep = {"property": pid, "tier": tier, "job": jn, "shard": w.shard, "shards": n, "mode": mode,
                           "index": idx, "case": desc2, "message": msg2}
                    violations.append(rep)
                shutil.rmtree(w.scratch, ignore_errors=True)
            if totals:
                if len(set(totals)) != 1 and not violations:
                    raise BuildError(f"workers disagree about the size of the space: {totals}")
                tot["total"] += totals[0]
            log(f"[{pid}] job {jn} ({j['prog']['name']}/{j.get('flavour', 'asan')}): {time.time() - jt:.1f} s")
        # jobs that enumerate the same space under different memory patterns must agree
        for grp, per in digests.items():
            if isinstance(grp, str) and len(per) > 1:
                vals = [sorted(d.items()) for d in per.values()]
                if any(v != vals[0] for v in vals) and not violations and not unrep:
                    bad = next(s for s in dict(vals[0]) if any(dict(v).get(s) != dict(vals[0])[s] for v in vals))
                    violations.append({"property": pid, "tier": tier, "job": sorted(per)[0], "shard": bad, "mode": "digest",
                                       "case": f"group {grp}, shard {bad}",
                                       "message": "results differ between two fillings of uninitialised memory"})
    finally:
        shutil.rmtree(work, ignore_errors=True)

    complete = tot["executed"] == tot["total"] or any(j.get("replicated") for j in jobs)
    cov = {"evaluations": tot["executed"], "exhaustive": bool(complete and not notes and not violations),
           "samples": (samples or ["(none)"])[:10], "rule": chk["rule"]}
    cov["distinct_nontrivial"] = len(outcomes)
    if chk["level"] == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = tot["transitions"]
        cov["traces_validated_against_impl"] = tot["traces"]
    cov["space_size"] = tot["total"]
    cov["counters"] = counters
    cov["bounds"] = chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"]
    cov["build_s"] = round(tb, 1)
    if unrep:
        cov["alarms_not_reproduced_in_a_fresh_process"] = unrep
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for case, what in known:
        print(f"KNOWN-FINDING: property={pid} {what} (case: {case})")
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(violations):
            path = os.path.join(HERE, "replays", f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"# {v['case']}\n#   {v['message']}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: held on {tot['executed']} of {tot['total']} members, {len(outcomes)} distinct outcomes, {time.time() - t0:.1f} s")
    return 0


def do_replay(pid, chk, jobs, exes, path, work):
    with open(path) as f:
        v = json.load(f)
    j = jobs[v["job"]]
    if v["mode"] == "compile":
        print(v["message"])
        return 1
    if v["mode"] == "digest":
        print("re-run the whole check: the alarm compares two complete runs")
        return 0
    w = Worker(exes[id(j)], j, v["tier"], v["shard"], v["shards"], work, ["--" + v["mode"], str(v["index"]), "--verbose"])
    rc = w.wait(time.time() + 600)
    print(w.stderr(20000))
    if rc != 0:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("did not reproduce")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--build-all", action="store_true", help="compile everything for the quick tier")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.build_all:
        todo = {}
        for c in CHECKS.values():
            for j in c["jobs"]:
                if "quick" in j.get("tiers", ("quick",)):
                    todo[(json.dumps(j["prog"], sort_keys=True), j.get("flavour", "asan"))] = j["prog"]
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda k: build(todo[k], k[1]), todo))
        return
    if a.property not in CHECKS:
        ap.error("unknown property")
    try:
        sys.exit(run_check(a.property, a.tier, a.replay))
    except BuildError as e:
        print("ERROR:", e)
        sys.exit(2)


main()
