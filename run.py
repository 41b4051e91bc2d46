#!/usr/bin/env python3
"""Runner: builds /repo's working tree with sanitizers, runs one property's monitor, writes evidence.
usage: run.py Cxx [--case FAM:IDX] [--seed N] [--scale F] | run.py --setup
exit 0 held, 1 violation (VIOLATION line), 2/3 machinery error / inconclusive."""
import fcntl, fnmatch, json, os, re, shutil, subprocess, sys, time, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NPROC = os.cpu_count() or 8
SAN_ASAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,signed-integer-overflow,shift,bounds,integer-divide-by-zero,"
            "unreachable,bool,enum,vla-bound,pointer-overflow -fno-sanitize-recover=all")
SAN_TSAN = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"
CFG = {  # per build flavour
    "asan": dict(san=SAN_ASAN, omp="ON"),
    "tsan": dict(san=SAN_TSAN, omp="ON"),
}
# per property options
OPT = json.load(open(os.path.join(HERE, "harness", "options.json")))

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def sh(cmd, env=None, cwd=None, timeout=1700):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")

def benv():
    e = dict(os.environ, CC="gcc", CXX="g++", CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="3G", CCACHE_BASEDIR="", CCACHE_NOHASHDIR="1",
             CCACHE_SLOPPINESS="include_file_ctime,include_file_mtime,time_macros", LC_ALL="C")
    e.pop("CFLAGS", None); e.pop("CXXFLAGS", None)
    return e

def build_lib(fl):
    b = os.path.join(BUILD, fl)
    env = benv()
    os.makedirs(BUILD, exist_ok=True)
    san = CFG[fl]["san"]
    if not os.path.exists(os.path.join(b, "build.ninja")):
        rc, o = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF",
                    "-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=" + os.path.join(HERE, "cmake", "skip-mi.cmake"),
                    "-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
                    "-DCMAKE_C_FLAGS=" + san, "-DCMAKE_CXX_FLAGS=" + san,
                    "-DPython_EXECUTABLE=/usr/bin/python3.12", "-DPYTHON_EXECUTABLE=/usr/bin/python3.12",
                    "-DENABLE_NETCDF=ON", "-DENABLE_FELT=ON", "-DENABLE_PROTOBUF=ON", "-DENABLE_ECCODES=ON", "-DENABLE_LOG4CPP=ON",
                    "-DENABLE_FIMEX_OMP=" + CFG[fl]["omp"], "-DENABLE_FORTRAN=OFF", "-DENABLE_PYTHON=OFF"], env)
        if rc:
            shutil.rmtree(b, ignore_errors=True)
            die("cmake failed\n" + o[-4000:])
    rc, o = sh(["ninja", "-C", b, "libfimex", "libfimex-io-netcdf", "libfimex-io-felt", "libfimex-io-grib"], env)
    if rc:  # stale build directory (files added/removed, moved): once more from scratch
        shutil.rmtree(b, ignore_errors=True)
        if getattr(build_lib, "again", False):
            die("ninja failed\n" + o[-6000:])
        build_lib.again = True
        return build_lib(fl)
    return b

def find_so(b, name):
    for d, _, fs in os.walk(b):
        for f in fs:
            if re.fullmatch(name + r"[-0-9.]*\.so", f):
                return os.path.join(d, f)
    return None

def plugin_dirs(b):
    return [os.path.join(b, "src/io", x) for x in ("netcdf", "felt", "grib")]

def build_pymodule(od, b, fl, lib, env):
    """the Python module of /repo, sanitized like the library"""
    src = os.path.join(REPO, "modules/python")
    md = os.path.join(od, "py")
    os.makedirs(md, exist_ok=True)
    pyinc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_path('include'))"], stdout=subprocess.PIPE).stdout.decode().strip()
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(b, "include"), "-I" + os.path.join(REPO, "src"), "-I" + pyinc]
    cc = sorted(f for f in os.listdir(src) if f.endswith(".cc"))
    from concurrent.futures import ThreadPoolExecutor
    def one(f):
        return sh(["ccache", "g++", "-std=gnu++17", "-fPIC", "-fvisibility=hidden", "-w"] + CFG[fl]["san"].split() + inc + ["-c", os.path.join(src, f), "-o", os.path.join(md, f + ".o")], env, cwd=md)
    with ThreadPoolExecutor(NPROC) as ex:
        for rc, out in ex.map(one, cc):
            if rc:
                die("python module does not compile\n" + out[-6000:])
    rc, out = sh(["g++", "-shared"] + CFG[fl]["san"].split() + [os.path.join(md, f + ".o") for f in cc] + ["-o", os.path.join(md, "pyfimex0.so"), lib, "-Wl,-rpath," + os.path.dirname(lib)], env, cwd=md)
    if rc:
        die("python module does not link\n" + out[-6000:])

def build_harness(pid, b, fl):
    src = os.path.join(HERE, "harness", pid.lower() + ".cc")
    od = os.path.join(BUILD, "h-" + fl)
    os.makedirs(od, exist_ok=True)
    env = benv()
    o = OPT.get(pid, {})
    obj = os.path.join(od, pid.lower() + ".o")
    exe = os.path.join(od, pid.lower())
    inc = ["-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(b, "include"), "-I" + os.path.join(b, "src"),
           "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/io/grib"), "-I" + os.path.join(b, "src/io/grib"), "-I/usr/include/libxml2"]
    rc, out = sh(["ccache", "g++", "-std=gnu++17", "-Wno-deprecated-declarations"] + CFG[fl]["san"].split() + inc + o.get("cxxflags", "").split() + ["-c", src, "-o", obj], env, cwd=od)
    if rc:
        die("harness does not compile\n" + out[-6000:])
    lib = find_so(b, "libfimex") or die("libfimex.so not found")
    ld = os.path.dirname(lib)
    objs = [obj]
    for x in o.get("extra", []):
        xo = os.path.join(od, x.replace("/", "_") + ".o")
        cc = "gcc" if x.endswith(".c") else "g++"
        flags = CFG[fl]["san"].split() if not o.get("extra_plain") else ["-O1", "-g1"]
        rc, out = sh(["ccache", cc] + flags + ["-fPIC", "-c", os.path.join(HERE, "harness", x), "-o", xo], env, cwd=od)
        if rc:
            die("harness does not compile\n" + out[-6000:])
        objs.append(xo)
    if o.get("pymodule"):
        build_pymodule(od, b, fl, lib, env)
    plug = []
    for p in o.get("plugins", []):
        plug.append(find_so(os.path.join(b, "src/io", p), "libfimex-io-" + p) or die("plugin " + p + " not found"))
    libs = o.get("libs", "").split()
    rp = ["-Wl,-rpath," + d for d in [ld] + [os.path.dirname(x) for x in plug]]
    rc, out = sh(["g++"] + CFG[fl]["san"].split() + objs + ["-o", exe, "-L" + ld] + rp + plug + [lib] + libs + ["-lpthread", "-ldl"], env, cwd=od)
    if rc:
        die("harness does not link\n" + out[-6000:])
    return exe

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def run_env(b, scratch):
    e = dict(os.environ)
    e["FIMEX_IO_PLUGINS_PATH"] = ":".join(plugin_dirs(b))
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:detect_odr_violation=0:intercept_tls_get_addr=0:alloc_dealloc_mismatch=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:log_path=" + scratch + ".tsan" + ":suppressions=" + os.path.join(HERE, "harness", "tsan.supp")
    e["TMPDIR"] = scratch
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    e["REPO"] = REPO
    e["VERIF_DIR"] = HERE
    e["VF_PYMOD"] = os.path.join(BUILD, "h-asan", "py")
    e.setdefault("OMP_NUM_THREADS", "1")
    return e

FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)")
def crash_key(err):
    kind = "abort"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if m2:
        kind = "ub-" + re.sub(r"[-0-9.e+xa-f]*\d[-0-9.e+xa-f]*", "N", m2.group(1))[:60]
    m3 = re.search(r"Assertion `([^\n]*)' failed", err)
    if m3:
        kind = "assert"
    m4 = re.search(r"ERROR: ThreadSanitizer: (\S+)", err)
    if m4:
        kind = m4.group(1)
    if "terminate called" in err:
        kind = "terminate"
    fn = "?"
    for m in FRAME.finditer(err):
        if m.group(2).startswith(REPO + "/") or "/repo/" in m.group(2):
            fn = os.path.basename(m.group(2)) + ":" + re.sub(r"\(.*", "", m.group(1))
            break
    return ("crash:%s:%s" % (kind, fn)).replace(" ", "_")

def library_crash(err, libs):
    """name of the library of the topmost frame (C runtime and sanitizer frames skipped), if listed"""
    if "ERROR: AddressSanitizer" not in err:
        return None
    if libs and re.search(r"AddressSanitizer: (out-of-memory|allocation-size-too-big|requested allocation size)", err):
        return "allocator (request too big; std::bad_alloc without the sanitizer)"
    for m in re.finditer(r"^ *#\d+ 0x[0-9a-f]+ (?:in (.*) )?\(?(/[^ +()]*|[^ ]*:\d+)", err, re.M):
        where = m.group(2)
        if re.search(r"lib(asan|ubsan|c|m|stdc\+\+)\.so|sanitizer|/sysdeps/|\.\./|^(nptl|stdlib|posix|libio|string)/", where):
            continue
        return next((l for l in libs if l in where), None)
    return None

def load_known(pid):
    kn = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid:
            kn.append((m.group(2), m.group(3)))
    return kn

def run_check(pid, a):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(a.get("seed") or os.environ.get("VERIF_SEED", "1") or 1)
    fl = OPT.get(pid, {}).get("flavour", "asan")
    with Lock():
        b = build_lib(fl)
        exe = build_harness(pid, b, fl)
    tb = time.time() - t0
    if a.get("build_only"):
        return 0
    scratch = os.path.join(BUILD, "scratch", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return run_shards(pid, a, tier, seed, fl, b, exe, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run_shards(pid, a, tier, seed, fl, b, exe, scratch, t0, tb):
    opt = OPT.get(pid, {})
    n = int(opt.get("shards", NPROC))
    if a.get("case"):
        n = 1
    case_to = float(opt.get("case_timeout", 45))
    hard = time.time() + (780 if tier == "quick" else 7200)
    viol, errors, hangs_inconclusive = [], [], 0
    cases, hashes, checks, nontriv = 0, set(), 0, 0
    counters, samples, rule = {}, [], ""
    S = []
    for k in range(n):
        d = os.path.join(scratch, "s%d" % k)
        os.makedirs(d)
        S.append(dict(k=k, d=d, frm=None, proc=None, done=False, restarts=0, out=os.path.join(scratch, "o%d" % k), st=os.path.join(scratch, "st%d" % k),
                      err=os.path.join(scratch, "e%d" % k)))
    def start(s, extra=None):
        shutil.rmtree(s["d"], ignore_errors=True); os.makedirs(s["d"])
        if os.path.exists(s["st"]):
            os.unlink(s["st"])
        cmd = [exe, "--seed", str(seed), "--shard", str(s["k"]), "--nshards", str(n), "--tier", tier, "--out", s["out"], "--state", s["st"], "--scratch", s["d"]]
        if a.get("scale"):
            cmd += ["--scale", str(a["scale"])]
        if s["frm"]:
            cmd += ["--from", "%d:%d" % s["frm"]]
        if a.get("case"):
            cmd += ["--case", a["case"], "--verbose", "1"]
        if extra:
            cmd += extra
        env = run_env(b, s["d"])
        env.update(opt.get("env", {}))
        if a.get("case"):
            s["proc"] = subprocess.Popen(cmd, env=env, cwd=s["d"], stdout=subprocess.DEVNULL, stderr=open(s["err"], "wb"), start_new_session=True)
        else:
            s["proc"] = subprocess.Popen(cmd, env=env, cwd=s["d"], stdout=subprocess.DEVNULL, stderr=open(s["err"], "wb"), start_new_session=True)
        s["last"] = time.time(); s["lastst"] = b""
    def state(s):
        try:
            return open(s["st"], "rb").read()
        except OSError:
            return b""
    def kill(s):
        try:
            os.killpg(s["proc"].pid, signal.SIGKILL)
        except OSError:
            pass
        s["proc"].wait()
    fams = None
    for s in S:
        start(s)
    running = list(S)
    truncated = 0
    while running:
        time.sleep(0.05)
        for s in list(running):
            rc = s["proc"].poll()
            now = time.time()
            if rc is None:
                st = state(s)
                if st != s["lastst"]:
                    s["lastst"] = st; s["last"] = now
                elif now - s["last"] > case_to * (1 if s["restarts"] < 1000 else 1):
                    kill(s)
                    f, i = (int(x) for x in st.split()[:2]) if st.split() else (-1, -1)
                    # rerun the single case alone, generous limit; only a repeated hang counts
                    if f >= 0 and rerun_hang(s, exe, seed, tier, b, opt, f, i, case_to * 2):
                        viol.append(dict(key="hang:family%d" % f, fam=f, idx=i, msg="case did not finish in %gs, twice" % case_to, case=""))
                        # one confirmed hang decides; more would only use up the time limit
                        for q in running:
                            kill(q)
                        truncated += len(running); running = []
                        break
                    else:
                        hangs_inconclusive += 1
                    s["frm"] = (f, i); s["restarts"] += 1
                    if s["restarts"] > 6 or f < 0:
                        running.remove(s); truncated += 1
                    else:
                        start(s)
                if now > hard:
                    kill(s); running.remove(s); truncated += 1
                continue
            fin = os.path.exists(s["out"]) and re.search(r'"t":"(done|stop)"', tail(s["out"]))
            if rc in (0, 1) and fin:
                running.remove(s)
                continue
            err = open(s["err"], "rb").read().decode("utf8", "replace")
            tl = "%s.tsan.%d" % (s["d"], s["proc"].pid)
            if os.path.exists(tl):
                t = open(tl, errors="replace").read()
                if "DEADLYSIGNAL" in t or "ERROR: ThreadSanitizer" in t:
                    err = t[max(0, t.find("ERROR: ThreadSanitizer") - 100):] + "\n" + err
            st = state(s).split()
            if not st:
                errors.append("shard %d ended with %s before any case: %s" % (s["k"], rc, err[-3000:]))
                running.remove(s); continue
            f, i = int(st[0]), int(st[1])
            lib = library_crash(err, opt.get("foreign", []))
            if lib:
                # the fault happened inside a third-party library that was handed damaged bytes: counted, not judged
                counters["crashes inside " + lib] = counters.get("crashes inside " + lib, 0) + 1
            else:
                viol.append(dict(key=crash_key(err), fam=f, idx=i, msg=err[:6000], case="exit status %s" % rc))
            s["frm"] = (f, i); s["restarts"] += 1
            open(s["out"], "a").write("\n")
            if s["restarts"] > 25 or a.get("case"):
                running.remove(s); truncated += 1
            else:
                start(s)
    for s in S:
        if not os.path.exists(s["out"]):
            continue
        for l in open(s["out"], errors="replace"):
            try:
                j = json.loads(l)
            except ValueError:
                continue
            t = j.get("t")
            if t == "viol":
                viol.append(j)
            elif t == "c":
                cases += 1; checks += j["k"]
                if j["n"]:
                    nontriv += 1; hashes.add(j["h"])
            elif t == "cnt":
                counters[j["name"]] = counters.get(j["name"], 0) + j["n"]
            elif t == "sample":
                samples.append(dict(family=j["fam"], index=j["idx"], case=j["case"]))
            elif t == "rule":
                rule = j["rule"]
    if a.get("case"):
        sys.stderr.write(open(S[0]["err"], errors="replace").read())
    if fl == "tsan":
        viol += tsan_reports(scratch)
    # verdict
    kn = load_known(pid)
    known, fresh = {}, []
    for v in viol:
        hit = [k for k, w in kn if fnmatch.fnmatchcase(v["key"], k)]
        if hit:
            known.setdefault(hit[0], []).append(v)
        else:
            fresh.append(v)
    for k, w in kn:
        if k in known:
            print("KNOWN-FINDING: property=%s %s (key %s, %d occurrences)" % (pid, w, k, len(known[k])))
    ev = dict(property=pid, tier=tier, seed=seed, level=opt.get("level", "exploration"),
              coverage=dict(evaluations=cases, distinct_nontrivial=len(hashes), rule=rule, samples=samples[:10], nontrivial_cases=nontriv,
                            oracle_comparisons=checks, events=counters, shards=n, crash_restarts=sum(s["restarts"] for s in S),
                            inconclusive_hangs=hangs_inconclusive, truncated_shards=truncated, sanitizer=CFG[fl]["san"]),
              assumptions=opt.get("assumptions", ["reference model in harness/%s.cc" % pid.lower(), "gcc sanitizer runtimes", "third-party libraries (netCDF, HDF5, ecCodes, PROJ, UDUNITS, libxml2)"]),
              wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.get("case") and not a.get("scale"):
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %d new / %d known violations, build %.1fs total %.1fs" %
        (pid, tier, seed, cases, len(hashes), checks, len(fresh), len(viol) - len(fresh), tb, time.time() - t0))
    if fresh:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for v in fresh:
            seen.setdefault(v["key"], []).append(v)
        rp = os.path.join(rd, "%s-seed%d.txt" % (pid, seed))
        with open(rp, "w") as f:
            for key, vs in sorted(seen.items()):
                v = vs[0]
                f.write("key: %s (%d occurrences)\nreplay: cd %s && VERIF_TIER=%s python3 run.py %s --seed %d --case %s:%s\ncase: %s\nmessage: %s\n\n" %
                        (key, len(vs), HERE, tier, pid, seed, v["fam"] if isinstance(v["fam"], str) else "#%d" % v["fam"], v["idx"], v["case"], v["msg"]))
        for key, vs in sorted(seen.items())[:12]:
            print("  %s x%d: %s" % (key, len(vs), " ".join(vs[0]["msg"].split())[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    if errors:
        die("; ".join(errors))
    if cases == 0 or (checks == 0 and not a.get("case")):
        print("INCONCLUSIVE property=%s nothing observed" % pid)
        return 3
    need = opt.get("require", {})
    if not a.get("case") and not a.get("scale"):
        for k, v in need.items():
            if counters.get(k, 0) < v:
                print("INCONCLUSIVE property=%s event %s seen %d < %d" % (pid, k, counters.get(k, 0), v))
                return 3
    if truncated and cases < 50:
        print("INCONCLUSIVE property=%s truncated" % pid)
        return 3
    print("OK property=%s cases=%d distinct=%d comparisons=%d" % (pid, cases, len(hashes), checks), flush=True)
    return 0

def rerun_hang(s, exe, seed, tier, b, opt, f, i, to):
    d = s["d"] + "r"
    os.makedirs(d, exist_ok=True)
    env = run_env(b, d); env.update(opt.get("env", {}))
    p = subprocess.Popen([exe, "--seed", str(seed), "--tier", tier, "--out", os.path.join(d, "o"), "--state", os.path.join(d, "st"), "--scratch", d,
                          "--nshards", "1000000000", "--shard", str(i), "--from", "%d:%d" % (f, i - 1)], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    t = time.time()
    try:
        while time.time() - t < to:
            if p.poll() is not None:
                return False
            try:
                st = open(os.path.join(d, "st"), "rb").read().split()
                if st and int(st[0]) != f:
                    return False
            except (OSError, ValueError):
                pass
            time.sleep(0.2)
        return True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

def tail(p, n=4096):
    with open(p, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode("utf8", "replace")

def tsan_reports(scratch):
    out = []
    for d, _, fs in os.walk(scratch):
        for fn in fs:
            if ".tsan." not in fn:
                continue
            txt = open(os.path.join(d, fn), errors="replace").read()
            for blk in txt.split("=================="):
                m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
                if not m:
                    continue
                fr = []
                for sec in re.split(r"\n\s*\n", blk)[:2]:
                    x = [y for y in re.finditer(r"#\d+ (\S.*?) (/\S+?):\d+", sec)]
                    y = [z for z in x if z.group(2).startswith(REPO + "/")]
                    if y:
                        fr.append(os.path.basename(y[0].group(2)) + ":" + re.sub(r"\(.*", "", y[0].group(1)))
                out.append(dict(key=("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), "|".join(sorted(set(fr))) or "?")).replace(" ", "_"), fam="tsan", idx=0, msg=blk[:12000], case=""))
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        with Lock():
            done = {}
            ids = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if re.fullmatch(r"c\d\d\.cc", f)]
            fls = sorted(set(OPT.get(i, {}).get("flavour", "asan") for i in ids))
            for fl in fls:
                done[fl] = build_lib(fl)
                log("built", fl)
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(NPROC) as ex:
                list(ex.map(lambda i: build_harness(i, done[OPT.get(i, {}).get("flavour", "asan")], OPT.get(i, {}).get("flavour", "asan")), ids))
        return 0
    if not args or not re.fullmatch(r"C\d\d", args[0]):
        print(__doc__)
        return 2
    a = {}
    i = 1
    while i < len(args):
        if args[i] == "--build-only":
            a["build_only"] = True; i += 1; continue
        a[args[i].lstrip("-")] = args[i + 1]; i += 2
    return run_check(args[0], a)

if __name__ == "__main__":
    sys.exit(main())
