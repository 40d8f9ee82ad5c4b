"""Shared machinery: builds the harness from /repo's working tree, runs TLC, validates recorded traces, writes evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD") or os.path.join(VERIF, "build")
OUT = os.environ.get("VT_BUILD") or VERIF      # evidence and replays; elsewhere while mutants are tried
SPEC = os.path.join(VERIF, "spec")
NPROC = min(8, os.cpu_count() or 4)
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEFS = ['-DGIT_SHA1="x"', '-DBUILD_DATE="x"', "-DBUILD_LINUX", "-DBUILD_POSIX", "-DBUILD_PNG", "-DBUILD_JPG"]


class CheckError(Exception):
    """Something of ours failed: neither 'held' nor 'violated'."""


# ---------------------------------------------------------------- building
def _incs():
    base = os.path.join(REPO, "include")
    return ["-I" + base] + ["-I" + os.path.join(base, d) for d in
            ("cn24", "cn24/util", "cn24/net", "cn24/math", "cn24/factory", "private")]


def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build(harness, variant="asan", tools=()):
    """Compiles /repo/src, harness/<harness>.cpp (and, on request, tools of /repo) into build/. Returns {name: exe}."""
    flags = ["-std=c++11", "-w", "-pthread", "-g1"]
    link = ["-lpng", "-ljpeg", "-pthread"]
    defs = list(DEFS)
    if variant == "asan":
        flags += ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
        link += ["-fsanitize=address"]
    elif variant == "plain":
        flags += ["-O2"]
    elif variant == "omp":
        flags += ["-O1", "-fopenmp"]
        link += ["-fopenmp"]
        defs += ["-DBUILD_OPENMP"]
    elif variant == "atlas":
        flags += ["-O1"]
        defs += ["-DBUILD_BLAS", "-DBLAS_ATLAS"]
        link += ["-lcblas"] if glob.glob("/usr/lib/x86_64-linux-gnu/libcblas*") else ["-lblas"]
    else:
        raise CheckError("unknown variant " + variant)
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    pch = os.path.join(VERIF, "harness", "pch.h")
    incs = _incs()
    common = _sha(" ".join(flags + defs + incs), _read(pch))
    gch = os.path.join(out, "pch-" + common[:12], "pch.h.gch")
    if not os.path.exists(gch):
        os.makedirs(os.path.dirname(gch), exist_ok=True)
        shutil.copy(pch, os.path.dirname(gch))
        subprocess.run(["g++", *flags, *defs, "-x", "c++-header", pch, "-o", gch + ".t"], check=True)
        os.replace(gch + ".t", gch)
    headers = sorted(glob.glob(REPO + "/include/**/*.h*", recursive=True))
    hsum = _sha(*[_read(h) for h in headers])
    lib = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    hdr2 = sorted(glob.glob(VERIF + "/harness/*.h"))
    h2sum = _sha(*[_read(h) for h in hdr2])
    jobs = []

    def obj(src, extra=""):
        key = _sha(common, hsum, src, _read(src), extra)[:16]
        return os.path.join(out, os.path.basename(src)[:-4] + "-" + key + ".o")

    libobjs = [obj(s) for s in lib]
    progs = {}
    jobs += list(zip(lib, libobjs))
    for h in ([harness] if isinstance(harness, str) else list(harness)):
        src = os.path.join(VERIF, "harness", h + ".cpp")
        o = obj(src, h2sum)
        jobs.append((src, o))
        progs[h] = o
    for t in tools:
        src = os.path.join(REPO, "tools", t + ".cpp")
        o = obj(src)
        jobs.append((src, o))
        progs[t] = o

    def cc(job):
        src, o = job
        if os.path.exists(o):
            return None
        r = subprocess.run(["g++", *flags, *defs, *incs, "-I" + os.path.join(VERIF, "harness"), "-include",
                            gch[:-4], "-c", src, "-o", o + ".t%d" % os.getpid()], capture_output=True, text=True)
        if r.returncode:
            return "%s: %s" % (src, r.stderr[-3000:])
        os.replace(o + ".t%d" % os.getpid(), o)

    # biggest first keeps the 8 cores busy
    todo = sorted((j for j in jobs if not os.path.exists(j[1])), key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for e in ex.map(cc, todo):
            if e:
                raise CheckError("compilation failed: " + e)
    exes = {}
    for name, o in progs.items():
        exe = os.path.join(out, name + "-" + _sha(o, *libobjs)[:16])
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(out, name + "-" + "[0-9a-f]" * 16)):
                os.unlink(old)
            r = subprocess.run(["g++", o, *libobjs, *link, "-o", exe + ".t%d" % os.getpid()], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("link failed: " + r.stderr[-3000:])
            os.replace(exe + ".t%d" % os.getpid(), exe)
        exes[name] = exe
    # drop objects that no longer correspond to the tree
    keep = {o for _, o in jobs}
    for o in glob.glob(out + "/*.o"):
        if o not in keep and time.time() - os.path.getmtime(o) > 3 * 3600:
            os.unlink(o)
    return exes


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = [x for line in out.splitlines() if len(line) < 400 for x in re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)]
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)


_tlc_n = 0


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=600, xmx="3g", c1=False):
    global _tlc_n
    _tlc_n += 1
    meta = os.path.join(BUILD, "tlc", "%d-%d-%s" % (os.getpid(), _tlc_n, module))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    if c1:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC)
        res = TLCResult(r.returncode, r.stdout + r.stderr, time.time() - t0)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        res = TLCResult(-9, (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\nTIMEOUT", time.time() - t0)
    shutil.rmtree(meta, ignore_errors=True)
    return res


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.trace_states = 0
        self.samples, self.notes, self.events, self.models = [], [], {}, []
        self.rejections = []
        self.assumptions = []
        self.extra = {}
        self.known_hit = []
        self.dir = os.path.join(BUILD, "run", prop + "-%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random(seed)

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # --- exhaustive model
    def model(self, module, cfg=None, export=None, env=None, workers=None, timeout=600, args=(), coverage=False, expect_ok=True):
        """Checks a model exhaustively; export=True collects the JSON scenario lines it prints (prefix '@@')."""
        workers = workers or (1 if export else NPROC)
        r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, args=args)
        if r.rc != 0:
            raise CheckError("model %s did not pass (rc %s):\n%s" % (cfg or module, r.rc, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": cfg or module, "distinct_states": r.distinct, "states_generated": r.generated,
                            "wall_s": round(r.wall, 1)})
        self.log("model", cfg or module, "distinct", r.distinct, "generated", r.generated, "%.1fs" % r.wall)
        sc = []
        if export:
            for line in r.out.splitlines():
                i = line.find("@@")
                if i >= 0:
                    s = line[i + 2:].rstrip('"').replace('\\"', '"').replace("\\\\", "\\")
                    sc.append(json.loads(s))
        return sc

    # --- harness
    def harness(self, exe, args, out, timeout=120, env=None, cwd=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190"
        e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "4")
        e.update(env or {})
        if self.quick:
            timeout = min(timeout, 300)  # these take well below a minute: a program which does not end is reported in time
        if os.path.exists(out):
            os.unlink(out)
        with open(out + ".log", "wb") as lg:
            try:
                r = subprocess.run([exe, *map(str, args), out], stdout=lg, stderr=lg, timeout=timeout, env=e, cwd=cwd or self.dir)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if not os.path.exists(out):
            open(out, "w").close()
        if rc != 0:
            with open(out + ".log", "rb") as lg:
                tail = "\n".join(x for x in lg.read().decode(errors="replace").splitlines() if x.strip(". "))[-1500:]
            with open(out, "rb") as f:
                data = f.read()
            if data and not data.endswith(b"\n"):
                data = data[:data.rfind(b"\n") + 1]
            with open(out, "wb") as f:
                f.write(data + json.dumps({"e": "Crash", "rc": str(rc)}).encode() + b"\n")
            self.log("harness ended with", rc, "\n" + tail)
        return rc

    def parallel(self, exe, scenario, args, out, procs, timeout, env):
        """The scenario lines dealt out to several runs of the harness, their traces concatenated."""
        lines = scenario.splitlines()
        parts = [lines[k::procs] for k in range(procs) if lines[k::procs]]

        def one(k):
            sf = "%s.part%d.scn" % (out, k)
            with open(sf, "w") as f:
                f.write("\n".join(parts[k]) + "\n")
            self.harness(exe, [sf] + list(args), "%s.part%d" % (out, k), timeout=timeout, env=env)

        with cf.ThreadPoolExecutor(procs) as ex:
            list(ex.map(one, range(len(parts))))
        with open(out, "wb") as f:
            for k in range(len(parts)):
                with open("%s.part%d" % (out, k), "rb") as g:
                    f.write(g.read())

    # --- trace validation
    def _sessions(self, path):
        cur, ses = [], []
        with open(path) as f:
            for line in f:
                if line.startswith('{"e":"Begin"') and cur:
                    ses.append(cur)
                    cur = []
                if line.strip():
                    cur.append(line)
        if cur:
            ses.append(cur)
        return ses

    def validate(self, path, module, cfg=None, shards=None, env=None, timeout=600, min_events=1, count=True):
        """Is every recorded session a behaviour of the specification? Returns a list of (session, index) rejected."""
        ses = self._sessions(path)
        nev = sum(map(len, ses))
        if nev < min_events:
            raise CheckError("only %d events recorded in %s" % (nev, path))
        shards = shards or NPROC
        shards = max(1, min(shards, len(ses)))
        bins = [[] for _ in range(shards)]
        w = [0] * shards
        order = sorted(range(len(ses)), key=lambda i: -sum(map(len, ses[i])))
        for i in order:
            k = w.index(min(w))
            bins[k].append(i)
            w[k] += sum(map(len, ses[i])) + 200
        for b in bins:
            b.sort()

        def run(k):
            f = "%s.shard%d" % (path, k)
            with open(f, "w") as o:
                for i in bins[k]:
                    o.writelines(ses[i])
            n = sum(len(ses[i]) for i in bins[k])
            ee = {"TRACE": f}
            ee.update(env or {})
            r = tlc(module, cfg, env=ee, timeout=timeout)
            ok = r.rc == 0 and ("@OK %d" % n) in r.out
            bad = None
            if not ok:
                m = re.findall(r"@AT (\d+)", r.out)
                if not m and "Error:" in r.out and "TIMEOUT" not in r.out:
                    m2 = re.findall(r"\bl = (\d+)", r.out)   # evaluation error: last state printed
                    m = [str(int(m2[-1]) - 1)] if m2 else []
                if not m or "OutOfMemory" in r.out or "StackOverflow" in r.out or "TIMEOUT" in r.out or "Parsing or semantic analysis failed" in r.out:
                    raise CheckError("trace validation by %s failed:\n%s" % (module, r.out[-3000:]))
                pos = int(m[-1])            # number of events accepted
                acc = 0
                for i in bins[k]:
                    if pos < acc + len(ses[i]):
                        bad = (i, pos - acc, r.out[-1500:])
                        break
                    acc += len(ses[i])
            os.unlink(f)
            return k, r, bad

        rejected = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for k, r, bad in ex.map(run, range(shards)):
                self.trace_states += r.distinct
                if bad:
                    rejected.append((ses[bad[0]], bad[1], bad[2]))
        if count:
            self.traces += len(ses)
            for s in ses:
                for line in s:
                    m = re.match(r'\{"e":"([^"]+)"', line)
                    if m:
                        self.events[m.group(1)] = self.events.get(m.group(1), 0) + 1
            if ses and len(self.samples) < 4:
                s = ses[self.rng.randrange(len(ses))]
                self.samples.append({"trace_of": os.path.basename(path), "events": [x.strip()[:400] for x in s[:6]], "length": len(s)})
        self.log("validated", len(ses), "sessions,", nev, "events of", os.path.basename(path), "->", "ok" if not rejected else "REJECTED")
        return rejected

    def conform(self, name, exe, args, module, cfg=None, scenario=None, timeout=120, env=None, tlc_env=None, min_events=1, known=None,
                post=None, shards=None, tlc_timeout=600, procs=1):
        """Harness run + validation; a rejection is confirmed by running both again."""
        out = os.path.join(self.dir, name + ".ndjson")
        a = list(args)
        if scenario is not None:
            sf = os.path.join(self.dir, name + ".scn")
            with open(sf, "w") as f:
                f.write(scenario)
            a = [sf] + a
        rej = None
        for attempt in (0, 1):
            if procs > 1:
                self.parallel(exe, scenario, args, out, procs, timeout, env)
            else:
                self.harness(exe, a, out, timeout=timeout, env=env)
            if post:
                post(out)
            rej = self.validate(out, module, cfg, env=tlc_env, min_events=min_events, count=attempt == 0, shards=shards, timeout=tlc_timeout)
            if not rej:
                if attempt == 1:
                    raise CheckError("a rejection of %s did not repeat" % name)
                return True
        for s, i, tail in rej:
            ev = s[i].strip() if i < len(s) else "(end)"
            if known and known(s, i):
                continue
            self.rejections.append({"trace": name, "event_index": i, "event": ev, "session": [x.strip() for x in s[:i + 1]][-40:],
                                    "begin": s[0].strip(), "harness_args": [str(x) for x in a], "spec": module, "tlc": tail[-600:]})
            self.log("REJECTED by %s: event %d: %s" % (module, i, ev[:1500]))
        return False

    # --- result
    def finish(self):
        cov = {"states": self.states + self.trace_states, "transitions": self.transitions + sum(self.events.values()),
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6] or ["(none)"],
               "models": self.models, "model_states": self.states, "trace_events": self.events}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.rejections)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.rejections:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            path = os.path.join(OUT, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "rejections": self.rejections,
                           "rerun": "VERIF_SEED=%d python3 run.py %s %s" % (self.seed, self.prop, "--thorough" if not self.quick else "")}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        self.log("held on everything explored (%d model states, %d traces, %d events)" % (self.states, self.traces, sum(self.events.values())))
        return 0


def known_findings(prop):
    """Entries 'known: property=<id> <what fails>' of known_findings.txt ('fixed:' entries suppress nothing)."""
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    res.append(m.group(2))
    except FileNotFoundError:
        pass
    return res


def optext(hist):
    """A history of operations as harness scenario text: words separated by blanks, operations ended by ';'."""
    return " ".join(" ".join(map(str, op)) + " ;" for op in hist)
