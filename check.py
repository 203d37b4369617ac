#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

Builds /repo's current sources and the property's harness in a scratch
directory, runs the harness in several processes, judges what the monitors
reported and writes evidence/<property>.json.
Exit 0: held on everything explored.  1: violation.  2: the check itself failed.
"""
import concurrent.futures as cf, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = 8
INC = ["-I" + REPO + "/include", "-I" + REPO + "/baselines/include", "-I" + REPO + "/ROS/drift/include",
       "-I/usr/include/eigen3", "-I" + HERE + "/harness", "-I" + HERE + "/harness/ros_stub"]
BASE = ["-std=c++17", "-w"]
MODES = {
    # Eigen's assertions are on (no NDEBUG); so are those of the standard library
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # run under valgrind's memcheck, which sees the use of uninitialised values
    "memcheck": ["-O1", "-g1", "-fno-omit-frame-pointer"],
}
LINK = ["-lyaml-cpp", "-lpthread", "-lboost_system", "-lboost_filesystem"]


def P(h, quick, thorough, rule, modes=("plain",), shards=8, extra=(), par=8, need=(), stall=150, progs=()):
    """progs: (mode, property, quick, thorough, shards): workloads of other properties, run under a
    sanitizer; only what the sanitizer (or a library assertion, or a crash) reports is judged then."""
    return dict(h=h, quick=quick, thorough=thorough, rule=rule, modes=modes, shards=shards,
                extra=list(extra), par=par, need=list(need), stall=stall, progs=list(progs))


sys.path.insert(0, HERE)
from tools.plan import make_plan
PROPS = make_plan(P, REPO, HERE)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Broken(Exception):
    pass


class Stop:
    """Once a run has reported an unlisted violation the others get some more time, not their whole budget."""
    at, grace, known, judged = None, 60, {}, True

    @staticmethod
    def found():
        if Stop.at is None:
            Stop.at = time.time() + Stop.grace

    @staticmethod
    def due():
        return Stop.at is not None and time.time() > Stop.at

    @staticmethod
    def scan(path, pos):
        """Looks at what a run has written since `pos`."""
        try:
            if os.path.getsize(path) <= pos:
                return pos
            with open(path, "rb") as f:
                f.seek(pos)
                new = f.read()
        except OSError:
            return pos
        end = new.rfind(b"\n") + 1
        for line in new[:end].split(b"\n"):
            m = re.match(rb'\{"t":"viol","key":"([^"]*)"', line)
            if m and Stop.judged and re.sub(r"\s+", "_", m.group(1).decode(errors="replace")) not in Stop.known:
                Stop.found()
        return pos + end


def compile_all(jobs):
    """jobs: list of (weight, source, object, flags). Largest first."""
    jobs = sorted(jobs, key=lambda j: -j[0])
    procs, fails, i = [], [], 0
    while i < len(jobs) or procs:
        while i < len(jobs) and len(procs) < JOBS:
            _, src, obj, flags = jobs[i]
            i += 1
            log = open(obj + ".log", "w")
            procs.append((subprocess.Popen(["g++"] + flags + ["-c", src, "-o", obj], stdout=log, stderr=log), src, obj))
        for q in list(procs):
            rc = q[0].poll()
            if rc is not None:
                procs.remove(q)
                if rc != 0:
                    fails.append((q[1], open(q[2] + ".log").read()[:2000]))
        time.sleep(0.02)
    return fails


def build(specs, mode, scratch):
    """Builds the harnesses of the given specs; returns {harness: executable}."""
    d = os.path.join(scratch, mode)
    os.makedirs(d, exist_ok=True)
    flags = BASE + MODES[mode] + INC
    jobs, libobjs, robots = [], [], []
    for src in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        obj = os.path.join(d, src[len(REPO):].replace("/", "_") + ".o")
        job = (os.path.getsize(src) + 1000 * os.path.getsize(src) * ("estimator" in src or "imu_filter" in src or "filter/" in src), src, obj, flags)
        if "/kinematics/robots/" in src:
            f = list(flags)
            if mode == "asan":    # thousands of generated expressions: keep it affordable
                f = [x for x in f if x != "-g1"]
            robots.append((os.path.getsize(src), src, obj, f))
        else:
            jobs.append(job)
            libobjs.append(obj)
    hobjs, seen = {}, {}
    for spec in specs:
        h = spec["h"]
        if h in hobjs:
            continue
        xf = [s for s in spec["extra"] if s.startswith("-") and not s.startswith("-Wl,")]
        hobjs[h] = []
        for k, src in enumerate([HERE + "/harness/" + h + ".cpp"] + [s for s in spec["extra"] if not s.startswith("-")]):
            key = (src, tuple(xf))
            if key not in seen:
                seen[key] = os.path.join(d, "harness%d.o" % len(seen))
                jobs.append((10 ** 12 if k == 0 else 10 ** 10, src, seen[key], flags[:2] + xf + flags[2:]))
            hobjs[h].append(seen[key])
    want_robots = any("robots" in spec["need"] for spec in specs)
    fails = compile_all(jobs + (robots if want_robots else []))
    if fails:
        raise Broken("does not compile:\n" + "\n".join(s + "\n" + l for s, l in fails))
    lib = os.path.join(d, "libdrift.a")

    def archive(extra):
        if os.path.exists(lib):
            os.remove(lib)
        sh(["ar", "rcs", lib] + libobjs + extra)
    archive([j[2] for j in robots] if want_robots else [])
    exes = {}
    for spec in specs:
        h = spec["h"]
        if h in exes:
            continue
        exe = os.path.join(d, h)
        sanit = [x for x in MODES[mode] if x.startswith("-fsanitize")]
        cmd = ["g++"] + sanit + hobjs[h] + [lib, lib, "-o", exe] + [s for s in spec["extra"] if s.startswith("-Wl,")] + LINK
        r = sh(cmd)
        if r.returncode != 0 and not want_robots:
            want_robots = True
            fails = compile_all(robots)
            if fails:
                raise Broken("does not compile:\n" + "\n".join(s + "\n" + l for s, l in fails))
            archive([j[2] for j in robots])
            r = sh(cmd)
        if r.returncode != 0:
            raise Broken("does not link:\n" + r.stdout[:3000])
        exes[h] = exe
    return exes


SAN_ENV = dict(
    ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0",
    UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1:halt_on_error=1",
    TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:suppress_equal_stacks=1",
)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


VALGRIND = ["valgrind", "--quiet", "--track-origins=yes", "--num-callers=30", "--fair-sched=yes", "--error-exitcode=0", "--leak-check=no",
            "--read-inline-info=no"]


def run_shard(exe, prop, seed, cases, out, work, tier, only, stall, total, wrap=()):
    """Runs one harness process. Returns (status, detail)."""
    os.makedirs(work, exist_ok=True)
    for p in (out, out + ".phase", out + ".err"):
        if os.path.exists(p):
            os.remove(p)
    env = dict(os.environ, **SAN_ENV)
    env["TSAN_OPTIONS"] += ":suppressions=" + HERE + "/tools/tsan.supp" if os.path.exists(HERE + "/tools/tsan.supp") else ""
    cmd = list(wrap) + [exe, prop, str(seed), str(cases), out, work, tier] + ([str(only)] if only is not None else [])
    with open(out + ".err", "wb") as err:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL,
                             env=env, cwd=work, preexec_fn=limits)
    last, since, t0, pos = None, time.time(), time.time(), 0

    def phase():
        try:
            return open(out + ".phase").read().strip()
        except OSError:
            return ""

    def kill():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    while True:
        try:
            rc = p.wait(0.25)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        ph = phase()
        if ph != last:
            last, since = ph, now
        if now - since > stall:
            kill()
            return "hang", ph
        pos = Stop.scan(out, pos)
        if Stop.due():
            kill()
            return "stopped", ph
        if now - t0 > total:
            kill()
            return "timeout", ph
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if rc == 0:
        return "ok", ""
    return ("killed" if rc == -9 else "crash"), "%s|%d" % (phase(), rc)


def clean_phase(ph):
    return re.sub(r"\s*case=\d+.*$", "", ph.split("|")[0]).strip() or "start"


def case_of(ph):
    m = re.search(r"case=(\d+)", ph)
    return int(m.group(1)) if m else -1


def frames(txt):
    """Function names of the frames in /repo's sources, innermost first."""
    o = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/[^ :]+)(?::\d+)*", txt):
        if m.group(2).startswith(REPO + "/"):
            f = re.sub(r"\(.*", "", m.group(1))
            f = re.sub(r"<.*", "", f).strip().split(" ")[-1]
            o.append(f.split("::")[-1] if f else "?")
    return o


def san_key(txt):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", txt)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
    else:
        m = re.search(r"runtime error: (.+)", txt)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:60]
        else:
            m = re.search(r"Assertion `?(.{0,80})", txt)
            if m:
                kind = "assert:" + m.group(1)[:60]
            else:
                m = re.search(r"terminate called after throwing an instance of '([^']+)'", txt)
                if m:
                    kind = "terminate:" + m.group(1)
    if not kind:
        return None
    fr = frames(txt)
    return kind + (":" + fr[0] if fr else "")


def tsan_reports(txt):
    out = []
    for blk in re.split(r"={18,}\n", txt):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", blk)
        if not m:
            continue
        kind = m.group(1).strip()
        # the two stacks of the conflicting accesses: outermost repository frames
        secs = re.split(r"\n  (?=\S)", blk)
        ends = []
        for s in secs:
            if re.match(r"(Read|Write|Previous|Atomic|Mutex|\s*(Read|Write))", s.strip()) or "of size" in s.split("\n")[0] or "acquired here" in s.split("\n")[0]:
                fr = frames(s)
                if fr:
                    ends.append(fr[0])
        key = "race:" + kind + ":" + "|".join(sorted(set(ends))[:4])
        out.append((key, blk.strip()[:6000], bool(ends)))
    return out


def memcheck_reports(txt):
    """valgrind's errors; ours if the error or the origin of the value is in the code under test."""
    out, blk = [], []
    for line in txt.split("\n") + [""]:
        m = re.match(r"==\d+== ?(.*)", line)
        t = m.group(1) if m else ""
        if m and t.strip():
            blk.append(t)
            continue
        if blk:
            body = "\n".join(blk)
            kind = re.match(r"(Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Uninitialised byte|Source and dest|Mismatched free|Jump to|Process terminating)[^\n]*", body)
            if kind:
                fn = []
                for f, loc in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \(([^()]*)\)$", body, re.M):
                    if re.match(r"\w[\w.-]*\.(?:cpp|h|hpp):\d+", loc) and os.path.basename(loc.split(":")[0]) in OURS:
                        fn.append(re.sub(r"[(<].*", "", f).strip().split(" ")[-1].split("::")[-1])
                out.append(("memcheck:" + kind.group(1).replace(" ", "_") + (":" + fn[0] if fn else ""), body[:5000], bool(fn)))
        blk = []
    return out


OURS = {os.path.basename(f) for pat in ("/src/**/*.cpp", "/include/**/*.h*", "/include/**/*.cpp", "/baselines/**/*.cpp", "/baselines/**/*.h", "/ROS/drift/**/*.cpp", "/ROS/drift/**/*.h")
        for f in glob.glob(REPO + pat, recursive=True)}


def load_known(prop):
    known, path = {}, os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay, keep, only, mul = None, False, None, 1.0
    while a:
        o = a.pop(0)
        if o == "--tier": tier = a.pop(0)
        elif o == "--seed": seed = int(a.pop(0))
        elif o == "--replay": replay = json.load(open(a.pop(0)))
        elif o == "--keep": keep = True
        elif o == "--scale": mul = float(a.pop(0))
    spec = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vrf_" + prop + "_")
    viols, notes, sums, others = [], [], [], {}
    try:
        runs = []    # executable, mode, workload, seed, cases, only
        progs = spec["progs"] or [(m, prop, None, None, spec["shards"]) for m in spec["modes"]]
        modes = sorted({g[0] for g in progs})
        tbuild = 0
        if replay:
            modes = [replay["mode"]]
            progs = [g for g in progs if g[0] == replay["mode"] and g[1] == replay.get("workload", prop)]
        for mode in modes:
            exes = build([PROPS[g[1]] for g in progs if g[0] == mode], mode, scratch)
            tbuild = time.time() - t0
            for gm, gp, q, t, shards in progs:
                if gm != mode:
                    continue
                n = spec[tier] if q is None else (t if tier == "thorough" else q)
                n = max(1, int(n * mul))
                exe = exes[PROPS[gp]["h"]]
                if replay:
                    runs.append((exe, mode, gp, replay["shard_seed"], replay["cases"], replay["case"] if replay["case"] >= 0 else None))
                else:
                    for i in range(shards):
                        runs.append((exe, mode, gp, seed * 1000 + i, n, None))
        if tier == "quick":
            runs.sort(key=lambda r: r[1] != "memcheck")    # the slow ones first
        total = 3000 if tier == "thorough" else 420
        Stop.grace = 300 if tier == "thorough" else 45
        Stop.known = load_known(prop)
        Stop.judged = not spec["progs"]

        took = {}

        def one(k):
            t1 = time.time()
            try:
                return one_(k)
            finally:
                took["%s/%s/%d" % runs[k][1:4]] = round(time.time() - t1, 1)

        def one_(k):
            exe, mode, gp, s, n, only = runs[k]
            out = os.path.join(scratch, "out%d.jsonl" % k)
            args = (exe, gp, s, n, out, os.path.join(scratch, "w%d" % k), tier, only, spec["stall"], total, VALGRIND if mode == "memcheck" else ())
            if Stop.due():
                return k, "stopped", "", None
            st, det = run_shard(*args)
            again = None
            if st == "crash" and mode != "plain":
                Stop.found()
            if st in ("hang", "timeout", "killed") and Stop.at is not None:
                return k, "stopped", det, None
            if st in ("hang", "timeout", "killed") or (st == "crash" and mode == "plain"):
                err1 = open(out + ".err", errors="replace").read()[-20000:]
                again = (st, det)
                st2, det2 = run_shard(*args)
                if st2 == "ok" and st == "crash":
                    st, det = "crash_once", det
                    open(out + ".err", "a").write("\n-- first run --\n" + err1)
                else:
                    st, det = st2, det2
                    if st == "crash":
                        Stop.found()
            return k, st, det, again
        with cf.ThreadPoolExecutor(spec["par"]) as ex:
            results = list(ex.map(one, range(len(runs))))
        for k, st, det, again in results:
            exe, mode, gp, s, n, only = runs[k]
            where = dict(mode=mode, workload=gp, shard_seed=s, cases=n)
            out = os.path.join(scratch, "out%d.jsonl" % k)
            err = open(out + ".err", errors="replace").read() if os.path.exists(out + ".err") else ""
            got_sum = False
            for line in (open(out, errors="replace") if os.path.exists(out) else []):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["t"] == "viol":
                    if spec["progs"]:    # judged by that property's own check
                        others[gp] = others.get(gp, 0) + 1
                        continue
                    viols.append(dict(where, key=d["key"], case=d["case"], phase=d["phase"], msg=d["msg"]))
                elif d["t"] == "sum":
                    sums.append(d)
                    got_sum = True
            if mode == "tsan":
                for key, txt, ours in tsan_reports(err):
                    if ours:
                        viols.append(dict(where, key=key, case=-1, phase="", msg=txt))
                    else:
                        notes.append("thread sanitizer report without a frame in the code under test: " + txt[:1500])
            if mode == "memcheck":
                for key, txt, ours in memcheck_reports(err):
                    if ours:
                        viols.append(dict(where, key=key, case=-1, phase="", msg=txt))
                    else:
                        notes.append("memcheck report without a frame in the code under test: " + txt[:1500])
            if st in ("crash", "crash_once"):
                key = san_key(err) or "crash:signal%s:%s" % (det.split("|")[-1].lstrip("-"), clean_phase(det))
                viols.append(dict(where, key=key.replace(" ", "_"), case=case_of(det), phase=clean_phase(det),
                                  msg="process ended abnormally (%s)%s\n%s" % (det, " in one of two runs" if st == "crash_once" else "", err[-6000:])))
            elif st == "hang":
                if again and again[0] == "hang" and not spec["progs"]:
                    viols.append(dict(where, key="hang:" + clean_phase(det).replace(" ", "_"), case=case_of(det), phase=clean_phase(det),
                                      msg="no progress for %d s, twice" % spec["stall"]))
                else:
                    notes.append("run %d stalled: %s" % (k, det))
            elif st in ("timeout", "killed", "stopped"):
                notes.append("run %d: %s (%s)" % (k, st, det))
            elif st == "ok" and not got_sum and not only:
                notes.append("run %d wrote no summary" % k)
        for v in viols:
            v["key"] = re.sub(r"\s+", "_", v["key"])
        known = load_known(prop)
        if sorted(set(v["key"] for v in viols)) and replay:
            print("replayed:")
        evals = sum(d["evals"] for d in sums)
        distinct = sum(d["distinct"] for d in sums)
        counts, maxs, samples = {}, {}, []
        for d in sums:
            for k2, v2 in d["counts"].items():
                counts[k2] = counts.get(k2, 0) + v2
            for k2, v2 in d["max"].items():
                maxs[k2] = max(maxs.get(k2, v2), v2)
            samples += d["samples"][:1]
        new = [v for v in viols if v["key"] not in known]
        seen = {v["key"] for v in viols if v["key"] in known}
        edir = os.path.join(HERE, "evidence")
        os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
        lines = []
        for key in sorted(seen):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
        bykey = {}
        for v in new:
            bykey.setdefault(v["key"], v)
        if not replay:
            for f in glob.glob(os.path.join(edir, "replay", prop + "-*.json")):
                os.remove(f)
        for i, (key, v) in enumerate(sorted(bykey.items())):
            path = os.path.join(edir, "replay", "%s-%d.json" % (prop, i))
            if not replay:
                json.dump(dict(v, property=prop, tier=tier, seed=seed,
                               how="python3 check.py %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
            lines.append("%s: %s" % (key, v["msg"][:1500]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec["rule"],
                                samples=samples[:8] or ["(none)"], observed=counts, largest=maxs,
                                runs=len(runs), builds=list(modes), unfinished=notes,
                                workloads=sorted({"%s under %s" % (r[2], r[1]) for r in runs}) if spec["progs"] else [prop],
                                known_findings_seen=sorted(seen)),
                  wall_s=round(time.time() - t0, 2), build_s=round(tbuild, 2),
                  assumptions=spec.get("assume", []),
                  violations=[dict(key=v["key"], msg=v["msg"][:400]) for v in bykey.values()])
        if not replay:
            json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
        for l in lines:
            print(l)
        for nt in notes:
            print("note: " + nt)
        print("%s %s seed %d: %d evaluations, %d distinct, %d violations, %.1f s (build %.1f s)"
              % (prop, tier, seed, evals, distinct, len(bykey), time.time() - t0, tbuild))
        if bykey:
            return 1
        if os.environ.get("VERIF_TIMES"):
            print(sorted(took.items(), key=lambda x: -x[1]))
        if replay:
            print("the replay did not show the violation")
            return 0
        if evals == 0 or len(sums) * 2 < len(runs):
            print("ERROR: too little was observed")
            return 2
        return 0
    except Broken as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        if keep:
            print("kept " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
