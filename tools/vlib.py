"""Shared machinery of the checks: content-addressed builds of /repo's sources with
sanitizers, running harnesses, collecting what the monitors observed, deciding."""
import concurrent.futures as cf
import hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

ASAN = ("-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
        "-fno-sanitize=function,vptr,nonnull-attribute,pointer-overflow -fno-sanitize-recover=all").split()
TSAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=thread".split()
MSAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=1".split()
PLAIN = "-g -O2".split()
MODES = {"asan": ASAN, "tsan": TSAN, "msan": MSAN, "plain": PLAIN}

_hash_cache, _hash_lock = {}, threading.Lock()

def file_hash(p):
    with _hash_lock:
        h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hash_cache[p] = h
    return h

def forget_hashes():
    with _hash_lock:
        _hash_cache.clear()

def sha(*parts):
    return hashlib.sha1("\0".join(map(str, parts)).encode()).hexdigest()

class BuildError(Exception):
    pass

def cached(cmd, out_name, deps_known=None, depfile=None, cwd=None):
    """Run cmd (list, '@OUT' '@DEP' replaced) unless the output for identical inputs exists."""
    os.makedirs(BUILD, exist_ok=True)
    ckey = sha(*cmd, cwd or "")
    rec = os.path.join(BUILD, f"{ckey[:24]}.json")
    if deps_known is None and os.path.exists(rec):
        try:
            deps, out = json.load(open(rec))
            if os.path.exists(out) and all(file_hash(d) == h for d, h in deps.items()):
                return out
        except (ValueError, OSError):
            pass
    if deps_known is not None:
        key = sha(ckey, *[f"{d}={file_hash(d)}" for d in sorted(deps_known)])
        out = os.path.join(BUILD, f"{key[:24]}-{out_name}")
        if os.path.exists(out):
            return out
    tmpout = os.path.join(BUILD, f"tmp-{os.getpid()}-{threading.get_ident()}-{out_name}")
    tmpdep = tmpout + ".d"
    argv = [tmpout if a == "@OUT" else tmpdep if a == "@DEP" else a for a in cmd]
    p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode != 0:
        raise BuildError(f"$ {shlex.join(argv)[:600]}\n{p.stdout.decode('utf-8', 'replace')[-4000:]}")
    if deps_known is None:
        text = open(tmpdep).read().replace("\\\n", " ")
        names = shlex.split(text.split(":", 1)[1])
        deps = {}
        for n in names:
            n = os.path.normpath(os.path.join(cwd or os.getcwd(), n))
            if n.startswith((REPO + "/", VERIF + "/")):
                deps[n] = file_hash(n)
        key = sha(ckey, *[f"{d}={h}" for d, h in sorted(deps.items())])
        out = os.path.join(BUILD, f"{key[:24]}-{out_name}")
        os.replace(tmpout, out)
        os.unlink(tmpdep)
        tmp = rec + f".{os.getpid()}.{threading.get_ident()}"
        json.dump([deps, out], open(tmp, "w"))
        os.replace(tmp, rec)
        # an object for another state of the tree is no longer needed
        return out
    os.replace(tmpout, out)
    return out

def compiler_for(src, cc="clang"):
    cxx = src.endswith((".cpp", ".cc", ".cxx"))
    return {("clang", 0): "clang", ("clang", 1): "clang++", ("gcc", 0): "gcc", ("gcc", 1): "g++"}[(cc, int(cxx))]

def obj(src, flags, cc="clang"):
    c = compiler_for(src, cc)
    std = ["-std=c++17"] if c.endswith("++") and not any(f.startswith("-std") for f in flags) else []
    cmd = [c, *std, *flags, "-w", "-fPIC", "-MMD", "-MF", "@DEP", "-c", src, "-o", "@OUT"]
    return cached(cmd, os.path.basename(src) + ".o")

def objs(srcs, flags, cc="clang"):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(obj, s, flags, cc) for s in srcs]
        return [f.result() for f in fs]

def link(name, objects, flags, cc="clang++"):
    return cached([cc, *flags, *objects, *[]] + ["-o", "@OUT"], name,
                  deps_known=[o for o in objects if os.path.isabs(o)])

def link2(name, objects, flags, libs, cc="clang++"):
    return cached([cc, *flags, *objects, "-o", "@OUT", *libs], name,
                  deps_known=[o for o in objects if os.path.isabs(o)])

RT = f"{REPO}/src/Runtime"
INC = [f"-I{REPO}/include", f"-I{REPO}", f"-I{REPO}/src"]

def c_runtime_sources():
    skip = set()
    return sorted(os.path.join(RT, f) for f in os.listdir(RT) if f.endswith(".c") and f not in skip)

def cruntime(mode, cc="clang", extra=()):
    return objs(c_runtime_sources(), [*MODES[mode], *INC, *extra], cc)

# ------------------------------------------------------------------ checks
def default_opts():
    return {
        "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:"
                        "handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=1:malloc_fill_byte=190:max_malloc_fill_size=4096",
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
        "LSAN_OPTIONS": "exitcode=78",
        "TSAN_OPTIONS": "exitcode=79:halt_on_error=0:second_deadlock_stack=1:history_size=4",
        "MSAN_OPTIONS": "exitcode=80",
    }

_SUM = re.compile(r"SUMMARY: (\w+)Sanitizer: (\S+) (\S+)(?: in (\S+))?")

def crash_key(text, rc):
    """A name for how a process died, stable under edits that move lines."""
    m = re.search(r"runtime error: (.*)", text)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", text)
    fn = "?"
    for f, where in frames:
        if "/repo/" in where:
            fn = f; break
    else:
        for f, where in frames:
            if "/verif/" in where: fn = "harness:" + f; break
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:80].strip().replace(" ", "_")
        return f"ubsan:{what}:{fn}"
    m = _SUM.search(text)
    if m:
        return f"{m.group(1).lower()}san:{m.group(2)}:{fn}".replace("addresssan", "asan").replace("threadsan", "tsan")
    m = re.search(r"Assertion `(.*?)' failed", text)
    if m:
        return "assert:" + m.group(1)[:80].replace(" ", "_")
    if rc is not None and rc < 0:
        try: return "signal:" + signal.Signals(-rc).name
        except ValueError: return f"signal:{-rc}"
    return f"exit:{rc}"

class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.viol = {}       # key -> (detail, replay info)
        self.nviol = {}
        self.notes = []
        self.assumptions = []
        self.rule = ""
        self.inconclusive = []
        self.tmp = tempfile.mkdtemp(prefix=f"vp-{pid}-")
        self.lock = threading.Lock()

    thorough = property(lambda s: s.tier == "thorough")
    def scale(self, quick, thorough):
        f = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int((thorough if self.thorough else quick) * f))

    def say(self, *a):
        print(*a, flush=True)

    def violate(self, key, detail, replay=None):
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            self.nviol[key] = self.nviol.get(key, 0) + 1
            if key not in self.viol:
                self.viol[key] = (detail, replay or {})

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def eval(self, n=1, distinct=0):
        with self.lock:
            self.evals += n; self.distinct += distinct

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12: self.samples.append(str(s)[:600])

    # -- run a mon.hpp harness, sharded over processes
    def harness(self, exe, args=(), shards=1, timeout=300, env=None, name=None, cwd=None, prefix=()):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(self._harness1, exe, args, i, shards, timeout, env, name, cwd, prefix) for i in range(shards)]
            for f in fs: f.result()

    def _harness1(self, exe, args, shard, shards, timeout, env, name, cwd, prefix, attempt=0):
        name = name or os.path.basename(exe).split("-", 1)[-1]
        d = tempfile.mkdtemp(prefix="h-", dir=self.tmp)
        out = os.path.join(d, "out")
        e = {**os.environ, **default_opts(), "MON_OUT": out, "MON_SEED": str(self.seed),
             "MON_SHARD": str(shard), "MON_SHARDS": str(shards), "MON_TIER": self.tier, "MON_TMP": d, **(env or {})}
        argv = [*prefix, exe, *map(str, args)]
        log = os.path.join(d, "log")
        rc, to = run_cmd(argv, log, e, timeout, cwd or d)
        text = read_tail(log, 200000)
        done = False
        if os.path.exists(out):
            for line in open(out, "r", errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "EV": self.eval(int(f[1]))
                elif f[0] == "DIS": self.eval(0, int(f[1]))
                elif f[0] == "CNT": self.count(f[1], int(f[2]))
                elif f[0] == "SAMPLE": self.sample(f[1])
                elif f[0] == "NOTE": self.notes.append(f[1])
                elif f[0] == "INC": self.inconclusive.append(f[1])
                elif f[0] == "DONE": done = True
                elif f[0] == "VIOL":
                    detail = f[2] if len(f) > 2 else ""
                    self.violate(f[1], detail, {"argv": argv, "case": f[3] if len(f) > 3 else "", "env": self._renv(e)})
                elif f[0] == "CRASH":   # CRASH <suite:case> <rc> <logfile>
                    t = read_tail(f[3], 100000)
                    self.violate("crash:" + crash_key(t, int(f[2])), f"{f[1]}: {excerpt(t)}",
                                 {"argv": argv, "case": f[1], "env": self._renv(e)})
        if to:
            if attempt == 0:
                shutil.rmtree(d, ignore_errors=True)
                self.notes.append(f"{name} shard {shard} timed out after {timeout}s; rerun once")
                return self._harness1(exe, args, shard, shards, timeout * 2, env, name, cwd, prefix, 1)
            self.inconclusive.append(f"{name} shard {shard}: no end within {timeout}s")
        elif not done or rc != 0:
            self.violate("crash:" + crash_key(text, rc), excerpt(text), {"argv": argv, "env": self._renv(e)})
        elif "WARNING: ThreadSanitizer" in text:
            for k in tsan_keys(text):
                self.violate(*k, {"argv": argv, "env": self._renv(e)})
        shutil.rmtree(d, ignore_errors=True)

    def _renv(self, e):
        return {k: v for k, v in e.items() if k.startswith("MON_") and k not in ("MON_OUT", "MON_TMP")}

    def finish(self, rule, assumptions=(), exhaustive=False):
        known = load_known(self.pid)
        shown, hits = 0, {}
        for key in sorted(self.viol):
            detail, rep = self.viol[key]
            k = next((k for k in known if re.fullmatch(k[0], key)), None)
            if k:
                hits.setdefault(k, 0); hits[k] += self.nviol[key]
                continue
            os.makedirs(REPLAY, exist_ok=True)
            path = os.path.join(REPLAY, f"{self.pid}-{sha(key)[:10]}.json")
            json.dump({"property": self.pid, "key": key, "detail": detail, "seed": self.seed, "tier": self.tier,
                       "count": self.nviol[key], **rep}, open(path, "w"), indent=1)
            if shown < 20:
                self.say(f"  violation key={key} x{self.nviol[key]}: {detail[:700]}")
                self.say(f"VIOLATION property={self.pid} replay={path}")
            shown += 1
        for k in known:
            # a listed finding is reported whenever this run met it
            if k in hits:
                self.say(f"KNOWN-FINDING: property={self.pid} {k[1]}")
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule,
               "samples": self.samples or ["none"], "observed": dict(sorted(self.counters.items()))}
        if exhaustive: cov["exhaustive"] = True
        if self.inconclusive: cov["inconclusive"] = self.inconclusive[:20]
        if self.notes: cov["notes"] = sorted(set(self.notes))[:40]
        if hits: cov["known_findings_met"] = {k[1]: n for k, n in hits.items()}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": shown}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.say(f"{self.pid} {self.tier} seed={self.seed}: {self.evals} evaluations, {self.distinct} distinct non-trivial, "
                 f"{shown} violations, {len(self.inconclusive)} inconclusive, {time.time()-self.t0:.1f}s; observed {self.counters}")
        for i in self.inconclusive[:5]: self.say("  inconclusive:", i)
        if shown: return 1
        if self.evals == 0:
            self.say("no execution was observed: error of the check")
            return 3
        return 0

def excerpt(t, n=900):
    m = re.search(r"(==\d+==\s*ERROR|runtime error|Assertion|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|terminate called)", t)
    s = t[max(0, (m.start() if m else max(0, len(t) - n)) - 120):]
    return re.sub(r"\s+", " ", s)[:n]

def tsan_keys(text):
    for rep in text.split("WARNING: ThreadSanitizer: ")[1:]:
        kind = rep.split("\n", 1)[0].split(" (")[0].replace(" ", "_")
        fr = re.findall(r"#\d+ (\S+) (\S+)", rep)
        own = [f for f, w in fr if "/repo/" in w]
        yield (f"tsan:{kind}:{own[0] if own else fr[0][0] if fr else '?'}", re.sub(r"\s+", " ", rep)[:900])

def read_tail(p, n):
    try:
        with open(p, "rb") as f:
            f.seek(0, 2); size = f.tell(); f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""

def run_cmd(argv, log, env, timeout, cwd=None, stdin=subprocess.DEVNULL):
    with open(log, "wb") as lf:
        p = subprocess.Popen(argv, stdout=lf, stderr=subprocess.STDOUT, stdin=stdin, env=env, cwd=cwd, start_new_session=True)
        try:
            rc, to = p.wait(timeout=timeout), False
        except subprocess.TimeoutExpired:
            rc, to = None, True
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError): pass
            p.wait()
    return rc, to

def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out
