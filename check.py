#!/usr/bin/env python3
"""Driver: build /repo's working tree, run one property's monitored workload, decide, write evidence.

  check.py <PROPERTY> [--tier quick|thorough]     exit 0 held / 1 VIOLATION / 2 the check itself failed
  check.py --replay <file>                        re-run the single case recorded in a replay file
  check.py --setup                                build everything once
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VENV = "/opt/placo-venv"
SP = "lib/python3.12/site-packages"
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
SAN_FLAGS = ("-O1 -g1 -w -fno-omit-frame-pointer -DEIGEN_MALLOC_ALREADY_ALIGNED=1 "
             "-fsanitize=address,bounds,integer-divide-by-zero,signed-integer-overflow,shift,"
             "float-cast-overflow,return,bool,enum,vla-bound")
NPROC = os.cpu_count() or 4


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def build_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "LD_LIBRARY_PATH", "CMAKE_PREFIX_PATH", "LD_PRELOAD", "CXXFLAGS", "CFLAGS")}
    env.update(PATH=f"{VENV}/bin:/usr/local/bin:/usr/bin:/bin", CC="gcc", CXX="g++", PIP_NO_INDEX="1",
               PYTHONDONTWRITEBYTECODE="1", CCACHE_MAXSIZE="3G")
    return env


def sh(cmd, env, logfile):
    with open(logfile, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, env=env, stdout=f, stderr=subprocess.STDOUT)


def cmake_args(bdir):
    return ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", f"-DCMAKE_PREFIX_PATH={VENV}/{SP}/cmeel.prefix",
            f"-DPython_ROOT_DIR={VENV}", f"-DPython3_ROOT_DIR={VENV}", f"-DPython_EXECUTABLE={VENV}/bin/python",
            f"-DPython3_EXECUTABLE={VENV}/bin/python", f"-DPYTHON_SITELIB={SP}", "-Wno-dev"]


def build_release():
    """The module exactly as users get it (same recipe and directory as the repository's own build)."""
    os.makedirs(BUILD, exist_ok=True)
    lf = os.path.join(BUILD, "release.log")
    open(lf, "w").close()
    env = build_env()
    env["CCACHE_DIR"] = "/opt/placo-ccache"
    b = f"{REPO}/_build"
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = time.time()
        if not os.path.exists(f"{b}/build.ninja"):
            if sh(cmake_args(b) + ["-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache"], env, lf):
                raise CheckError("cmake failed, see " + lf)
        shutil.rmtree(f"{b}/{SP}/placo_utils", ignore_errors=True)
        if sh(["ninja", "-C", b], env, lf):
            raise CheckError("build failed:\n" + open(lf, errors="replace").read()[-3000:])
        log(f"[build] release {time.time() - t:.1f}s")


def build_san():
    """liblibplaco.so with AddressSanitizer + UBSan checks + Eigen/assert() bound checks, swapped under the same module."""
    os.makedirs(BUILD, exist_ok=True)
    lf = os.path.join(BUILD, "san.log")
    open(lf, "w").close()
    env = build_env()
    b = os.path.join(BUILD, "san")
    extra = []
    if shutil.which("ccache"):
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        extra = ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = time.time()
        if not os.path.exists(f"{b}/build.ninja"):
            if sh(cmake_args(b) + ["-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + SAN_FLAGS] + extra, env, lf):
                raise CheckError("cmake (san) failed, see " + lf)
        if sh(["ninja", "-C", b, "libplaco"], env, lf):
            raise CheckError("sanitized build failed:\n" + open(lf, errors="replace").read()[-3000:])
        log(f"[build] sanitized {time.time() - t:.1f}s")


def build_ext(names):
    """Extension modules reaching the unbound C++ API, from /repo's headers. One that no longer compiles is left out."""
    out = os.path.join(BUILD, "ext")
    os.makedirs(out, exist_ok=True)
    env = build_env()
    t = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        base = None
        try:
            db = json.loads(subprocess.check_output(["ninja", "-C", f"{REPO}/_build", "-t", "compdb"], env=env, text=True))
            cmd = next(c["command"] for c in db if c["file"].endswith("bindings/module.cpp")).split()
            cmd = cmd[next(k for k, w in enumerate(cmd) if w.endswith("g++")):]
            base, skip = [], False
            for w in cmd:
                if skip:
                    skip = False
                elif w in ("-o", "-c", "-MT", "-MF"):
                    skip = True
                elif w not in ("-MD", "-O3", "-Dplaco_EXPORTS"):
                    base.append(w)
        except (OSError, subprocess.CalledProcessError, StopIteration, ValueError) as e:
            log("extensions unavailable:", e)
        h = hashlib.sha1(repr(base).encode())
        for f in sorted(glob.glob(f"{REPO}/src/**/*.h", recursive=True)):
            h.update(open(f, "rb").read())
        jobs = []
        for n in names:
            so, src = os.path.join(out, f"vfx_{n}.so"), os.path.join(HERE, "vf", "ext", f"vfx_{n}.cpp")
            k = h.copy()
            k.update(open(src, "rb").read())
            try:
                if open(so + ".key").read() == k.hexdigest():
                    continue
            except OSError:
                pass
            for f in (so, so + ".key"):
                if os.path.exists(f):
                    os.unlink(f)
            if base is None:
                continue
            lib = f"{VENV}/{SP}/cmeel.prefix/lib"
            c = base + ["-O0", "-w", "-shared", "-o", so + ".tmp", src, f"-Wl,-rpath,{lib}:{REPO}/_build", f"-L{REPO}/_build",
                        f"{lib}/libboost_python312.so", f"{lib}/libeigenpy.so"] + (["-llibplaco"] if n != "alloc" else [])
            jobs.append((n, so, k, subprocess.Popen(c, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for n, so, k, p in jobs:
            err = p.communicate()[1]
            if p.returncode == 0:
                os.replace(so + ".tmp", so)
                with open(so + ".key", "w") as f:
                    f.write(k.hexdigest())
            else:
                log(f"extension {n} does not compile, its families are left out:\n" + err[:1500])
    if jobs:
        log(f"[build] extensions {time.time() - t:.1f}s")


def worker_env(san):
    env = build_env()
    env.update(PYTHONPATH=f"{REPO}/_build/{SP}:{HERE}:{BUILD}/ext", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONFAULTHANDLER="1")
    if not san:
        env["MALLOC_PERTURB_"] = "165"  # freed and uninitialized memory holds garbage
    if san:
        libs = [subprocess.check_output(["gcc", "-print-file-name=" + l], text=True).strip()
                for l in ("libasan.so", "libubsan.so")]
        env.update(LD_LIBRARY_PATH=os.path.join(BUILD, "san"), LD_PRELOAD=":".join(libs), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:halt_on_error=1:abort_on_error=0:"
                                "exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_free_fill_size=1048576:free_fill_byte=254:max_malloc_fill_size=1048576:malloc_fill_byte=190",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
        env.pop("PYTHONFAULTHANDLER")
    return env


def known_keys(pid):
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def crash_key(family, stderr, rc):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", stderr)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]{0,80})", stderr)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x\w+|-?\d+(\.\d+)?", "", m.group(1)))[:50]
        elif "Assertion" in stderr:
            kind = "assertion"
        elif rc < 0:
            kind = "signal-" + signal.Signals(-rc).name
        else:
            kind = f"exit-{rc}"
    where = ""
    for fm in re.finditer(r"/repo/src/placo/([\w/]+\.(?:cpp|h))", stderr):
        where = fm.group(1).replace("/", ".")
        break
    if not where:
        am = re.search(r"placo::[\w:]+", stderr)
        where = am.group(0) if am else ""
    return f"{family}:crash:{kind}" + (f":{where}" if where else "")


def run_workers(pid, seed, tier, san, nshards, only=None, budget=600, mult=1.0, memcheck=False):
    """Runs the workload in nshards processes; a shard that dies or hangs is resumed after the offending case."""
    env = worker_env(san)
    if memcheck:
        env.pop("MALLOC_PERTURB_")
        env.pop("PYTHONFAULTHANDLER")
        env["PYTHONMALLOC"] = "malloc"
    tmp = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    res = dict(evaluations=0, sigs=set(), events={}, samples=[], viol=[], families={}, inconclusive=0)

    def merge(path):
        if not os.path.exists(path):
            return
        for line in open(path):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "v":
                res["viol"].append(d)
            elif d["t"] == "s":
                res["evaluations"] += d["evaluations"]
                res["sigs"].update(d["sigs"])
                for k, v in d["events"].items():
                    res["events"][k] = res["events"].get(k, 0) + v
                for k, v in d["families"].items():
                    f = res["families"].setdefault(k, dict(cases=0, skipped=0))
                    f["cases"] += v["cases"]
                    f["skipped"] += v["skipped"]
                res["samples"] += d["samples"]

    def spawn(shard, start, attempt):
        out = os.path.join(tmp, f"out_{shard}_{attempt}.jsonl")
        jr = os.path.join(tmp, f"journal_{shard}")
        er = open(os.path.join(tmp, f"err_{shard}_{attempt}"), "wb")
        cmd = [f"{VENV}/bin/python", "-m", "vf.worker", pid, "--seed", str(seed), "--tier", tier, "--shard",
               f"{shard}/{nshards}", "--out", out, "--journal", jr, "--start", str(start)]
        if san:
            cmd.append("--san")
        if only:
            cmd += ["--only", only]
        if mult != 1.0:
            cmd += ["--mult", str(mult)]
        if memcheck:
            lf = os.path.join(tmp, f"vg_{shard}_{attempt}")
            cmd = ["valgrind", "--tool=memcheck", "--error-limit=no", "--num-callers=20", "--leak-check=no", "--undef-value-errors=yes",
                   f"--log-file={lf}"] + cmd + ["--memcheck", lf, "--seconds", str(memcheck - (time.time() - t_begin))]
        p = subprocess.Popen(cmd, env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=er, start_new_session=True)
        return dict(p=p, out=out, journal=jr, err=er.name, shard=shard, attempt=attempt, t0=time.time(), start=start,
                    last=(None, time.time()), rehang=None)

    t_begin = time.time()
    live = [spawn(s, 0, 0) for s in range(nshards)]
    crashes, hangs = 0, {}
    CASE_LIMIT = 300.0 if memcheck else 60.0 if san else 30.0
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w["p"].poll()
            now = time.time()
            if rc is None:
                try:
                    j = open(w["journal"]).read()
                except OSError:
                    j = ""
                if j != w["last"][0]:
                    w["last"] = (j, now)
                hung = now - w["last"][1] > CASE_LIMIT
                if hung or now - t_begin > budget:
                    try:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    w["p"].wait()
                    live.remove(w)
                    merge(w["out"])
                    if hung and j:
                        d = json.loads(j)
                        n = hangs.get(j, 0) + 1
                        hangs[j] = n
                        if n == 1:
                            log("slow case, re-run:", j.strip())
                        if n == 1:  # re-run once from the same case before calling it a hang
                            live.append(spawn(w["shard"], d["pos"], w["attempt"] + 1))
                        else:
                            res["viol"].append(dict(t="v", family=d["family"], index=d["index"],
                                                    key=f"{d['family']}:hang", detail=f"no progress for {CASE_LIMIT}s, twice"))
                    else:
                        res["inconclusive"] += 1
                continue
            live.remove(w)
            merge(w["out"])
            if rc == 0:
                continue
            err = open(w["err"], errors="replace").read()
            try:
                d = json.loads(open(w["journal"]).read())
            except (OSError, ValueError):
                raise CheckError(f"worker failed before its first case (rc={rc}):\n{err[-3000:]}")
            if rc == 3:
                raise CheckError(f"harness failure in worker:\n{err[-3000:]}")
            crashes += 1
            res["viol"].append(dict(t="v", family=d["family"], index=d["index"], key=crash_key(d["family"], err, rc),
                                    detail=err[-6000:]))
            if crashes < 12:
                live.append(spawn(w["shard"], d["pos"] + 1, w["attempt"] + 1))
    shutil.rmtree(tmp, ignore_errors=True)
    return res


def load_meta(pid):
    if pid.startswith("@"):  # development: all the families of a module
        return dict(modules=pid[1:].split(","), rule="dev", ext=["walk", "problem", "robot"] if "ext" in pid else [])
    sys.path.insert(0, HERE)
    src = open(os.path.join(HERE, "vf", "meta.json")).read()
    return json.loads(src)[pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", help="family[:index]")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--nobuild", action="store_true")
    ap.add_argument("--san", action="store_true", help="force the sanitized library")
    ap.add_argument("--nosan", action="store_true")
    ap.add_argument("--mult", type=float, default=1.0, help="multiplies the number of cases")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        build_release()
        build_ext(["alloc", "walk", "problem", "robot"])
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.seed, a.tier, a.only = r["property"], r["seed"], r["tier"], f"{r['family']}:{r['index']}"
        a.san = a.san or r.get("san", False)
    pid = a.prop
    meta = load_meta(pid)
    t0 = time.time()
    if not a.nobuild:
        build_release()
    passes = [("memcheck" if meta.get("memcheck") else "release", False)] if not meta.get("san_only") else []
    if a.san:
        passes = [("sanitized", True)]
    elif meta.get("san_only") or (meta.get("san_quick") and not a.only) or (meta.get("san_thorough", True) and a.tier == "thorough" and not a.only and not a.nosan):
        passes.append(("sanitized", True))
    if any(s for _, s in passes) and not a.nobuild:
        build_san()
    if not a.nobuild:
        build_ext(["alloc"] + meta.get("ext", []))
    total = dict(evaluations=0, sigs=set(), events={}, samples=[], viol=[], families={}, inconclusive=0, passes=[])
    for name, san in passes:
        tier = a.tier
        if san and not meta.get("san_only") and not a.san:
            tier = "quick"  # the sanitized re-run of a behavioural workload uses the quick case counts
        r = run_workers(pid, a.seed, tier, san, NPROC if not (a.only and ":" in a.only) else 1, a.only,
                        budget=max(60, 820 - (time.time() - t0)) if a.tier == "quick" else 6 * 3600, mult=a.mult,
                        memcheck=(420.0 if a.tier == "quick" else 4 * 3600.0) if name == "memcheck" else False)
        for v in r["viol"]:
            v["san"] = san
        total["evaluations"] += r["evaluations"]
        total["sigs"] |= r["sigs"]
        total["viol"] += r["viol"]
        total["samples"] += r["samples"]
        total["inconclusive"] += r["inconclusive"]
        for k, v in r["events"].items():
            total["events"][k] = total["events"].get(k, 0) + v
        for k, v in r["families"].items():
            f = total["families"].setdefault(k, dict(cases=0, skipped=0))
            f["cases"] += v["cases"]
            f["skipped"] += v["skipped"]
        total["passes"].append(dict(build=name, evaluations=r["evaluations"], violations=len(r["viol"])))
    known = known_keys(pid)
    if meta.get("crash_only"):  # the oracles of the borrowed workloads belong to other properties
        total["viol"] = [v for v in total["viol"] if ":crash:" in v["key"] or ":memcheck:" in v["key"] or v["key"].endswith(":hang")]
    bykey = {}
    for v in total["viol"]:
        bykey.setdefault(v["key"], []).append(v)
    new = {k: v for k, v in bykey.items() if k not in known}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fams = total["families"]
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(total["sigs"]),
                            rule=meta["rule"], samples=total["samples"][:6], events=total["events"], families=fams,
                            passes=total["passes"], shards_out_of_time=total["inconclusive"]),
              wall_s=round(time.time() - t0, 2),
              assumptions=meta.get("assumptions", []),
              violations=len(new))
    ev["coverage"]["violation_keys"] = [dict(key=k, count=len(v), known=k in known, detail=v[0]["detail"][:500])
                                        for k, v in bykey.items()]
    if not a.only and pid[0] != "@":
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log(f"[{pid}] {total['evaluations']} cases, {len(total['sigs'])} distinct, events={total['events']} "
        f"{time.time() - t0:.1f}s")
    if a.v or new:
        for k, v in bykey.items():
            log(f"  key={k} x{len(v)}  case={v[0]['family']}:{v[0]['index']}\n     {v[0]['detail'][-(4000 if a.v else 1500):]}")
    for k in bykey:
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for k, v in sorted(new.items()):
            h = hashlib.sha1(k.encode()).hexdigest()[:10]
            path = os.path.join(HERE, "replay", f"{pid}_{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=a.seed, tier=a.tier, family=v[0]["family"], index=v[0]["index"],
                               san=v[0]["san"], key=k, detail=v[0]["detail"]), f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if a.only:
        return 0
    if total["inconclusive"]:
        log("some shards ran out of time: fewer cases were explored")
    empty = [k for k, v in fams.items() if v["cases"] - v["skipped"] <= 0]
    if not total["evaluations"] or empty:
        log("inconclusive: nothing observed in", empty)
        return 2
    missing = [e for e in meta.get("require_events", []) if not total["events"].get(e)]
    if missing:
        log("inconclusive: required events never observed:", missing)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("CHECK ERROR:", e)
        sys.exit(2)
