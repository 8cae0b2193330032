# P26: the compiler's main started with random configuration files, environment and command lines;
# the recorded options are compared with a model of the documented precedence.
import json, os, shutil, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from monpy import Mon
N, EXE = int(sys.argv[1]), sys.argv[2]
M = Mon(); ROOT = os.path.join(M.tmp, f"p26-{M.shard}-{os.getpid()}"); os.makedirs(ROOT, exist_ok=True)
def unesc(s):
    o, i = bytearray(), 0
    while i < len(s):
        if s[i] == "%": o.append(int(s[i+1:i+3], 16)); i += 3
        else: o.append(ord(s[i])); i += 1
    return o.decode("utf-8", "surrogateescape")
def read(path):
    d = {}
    for l in open(path).read().splitlines():
        k, v = l.split("=", 1); d[k] = [unesc(x) for x in v[1:].split("|")[:-1]] if v.startswith("[") else unesc(v)
    return d if "END" in d else None
STR = {"mcpu": "mcpu", "march": "march", "mtriple": "mtriple", "shapeInformation": "shapeInformation", "shapeInformationUB": "shapeInformationUB", "shapeInformationLB": "shapeInformationLB", "dimParams": "dimParams", "mllvm": "mllvm", "instrument-ops": "instrumentOps", "parallelize-ops": "parallelizeOps", "instrument-signature": "instrumentSignatures", "instrument-onnx-node": "instrumentOnnxNode", "onnx-op-stats": "ONNXOpStats", "ops-for-call": "opsForCall", "linalg-ops": "linalgOps", "tag": "modelTag", "save-config-file": "saveConfigFile"}
INT = {"onnx-const-prop-expansion-bound": "onnxConstPropExpansionBound", "printONNXBasicIR": "printONNXBasicIR", "repeatOnnxTransform": "repeatOnnxTransform", "onnx-op-transform-threshold": "onnxOpTransformThreshold", "j": "compilationNumThreads"}
FLT = {"nnpa-epsilon": "nnpaEpsilon", "constants-to-file-total-threshold": "constantsToFileTotalThreshold", "constants-to-file-single-threshold": "constantsToFileSingleThreshold"}
LST = {"Xopt": "Xopt", "Xllc": "Xllc", "decompose-op-in-onnx": "decomposeOpsInONNX", "onnx-const-prop-disable-pattern": "onnxConstPropDisablePatterns", "functions-to-decompose": "functionsToDecompose", "report-heap-before": "reportHeapBefore", "report-heap-after": "reportHeapAfter", "replace-op-with-its-operand": "replaceOpWithItsOperand"}
COMMA = {"Xopt", "Xllc", "decompose-op-in-onnx"}
BOOL = {"onnx-const-prop-round-fp-to-int": "onnxConstPropRoundFPToInt", "onnx-hybrid-pass": "enableONNXHybridPass", "disable-krnl-op-fusion": "disableKrnlOpFusion", "disable-quantization-zero-point": "disableQuantZeroPoint", "enable-krnl-buffer-reuse": "enableKrnlBufferReuse", "enable-safe-code-gen": "enableSafeCodeGen", "disable-memref-prefetch": "disableMemRefPrefetch", "disable-recompose": "disableRecomposeOption", "invokeOnnxVersionConverter": "invokeOnnxVersionConverter", "preserveLocations": "preserveLocations", "printIR": "printIR", "do-not-emit-full-mlir-code": "doNotEmitFullMLIRCode", "omit-compile-info": "omitCompileInfo", "preserveBitcode": "preserveBitcode", "preserveLLVMIR": "preserveLLVMIR", "preserveMLIR": "preserveMLIR", "useOnnxModelTypes": "useOnnxModelTypes", "store-constants-to-file": "storeConstantsToFile", "v": "VerboseOutput", "onnx-op-transform-report": "onnxOpTransformReport", "parallel": "enableParallel", "disable-simd": "disableSimdOption", "enable-fast-math": "enableFastMathOption", "simd-data-layout": "enableSimdDataLayout", "verifyInputTensors": "verifyInputTensors", "use-linalg-path": "useLinalgPath", "enable-debug-info": "enableDebugInfo", "allowSorting": "allowSorting", "enable-conv-opt-pass": "enableConvOptPass", "disable-eliminate-write-only-alloc": "disableEliminateWriteOnlyAlloc", "disable-fused-op": "disableFusedOp", "disable-conv-to-matmul": "disableConvToMatmul", "disable-constant-prop": "disableConstantProp", "disable-count-include-pad": "disableCountIncludePad", "enable-timing": "enableTiming", "enable-bound-check": "enableBoundCheck"}
FLAGS = {"O0": ("OptimizationLevel", 0), "O1": ("OptimizationLevel", 1), "O2": ("OptimizationLevel", 2), "O3": ("OptimizationLevel", 3), "EmitONNXBasic": ("emissionTarget", 0), "EmitONNXIR": ("emissionTarget", 1), "EmitMLIR": ("emissionTarget", 2), "EmitLLVMIR": ("emissionTarget", 3), "EmitObj": ("emissionTarget", 4), "EmitLib": ("emissionTarget", 5), "EmitJNI": ("emissionTarget", 6)}
BITS = {"InstrumentBeforeOp": 0, "InstrumentAfterOp": 1, "InstrumentReportTime": 2, "InstrumentReportMemory": 3}
ENUM = {"modelSize": ("modelSize", {"small": 0, "large": 2}), "opt-report": ("optReport", {"NoReport": 0, "Parallel": 1, "Simd": 2}), "profile-ir": ("profileIR", {"None": 0, "Onnx": 1, "ZHigh": 2})}
WORDS = ["a", "onnx.Add", "x86-64", "z16", "arch14", "0:1x2,1:-1x3", "0:batch,seq", "-O3 -fast", "with blank", "k=v", "NONE", "ALL", "Mat.*", "zażółć", "tag_1", "1.5", "-", "--x", "'q'", "%41", "longer/../not", "apple-m1"]
def value(r, k):
    v = r.choice(WORDS)
    if "/" in v: v = "p.q"
    return v
class Opt:   # one option as it is written, and what it does
    def __init__(o, args, apply, verbose=False): o.args, o.apply, o.verbose = args, apply, verbose
def scalar(n, g, v, text):
    def f(st): st[g] = v
    return f
def lister(g, vs):
    def f(st): st[g] = st[g] + vs
    return f
def spell(r, name, val, need=True):
    d = r.choice(["-", "--"]) if len(name) > 1 else "-"
    k = r.random()
    if k < 0.6 or val == "" : return [f"{d}{name}={val}"]
    return [f"{d}{name}", val]
def option(r, where):
    k = r.randrange(13)
    if k <= 2:
        n = r.choice(list(STR)); v = value(r, n); return Opt(spell(r, n, v), scalar(n, STR[n], v, v))
    if k == 3:
        n = r.choice(list(INT)); v = r.randrange(0, 9) if n == "j" else r.randrange(-3, 1000); return Opt(spell(r, n, str(v)), scalar(n, INT[n], str(v), v))
    if k == 4:
        n = r.choice(list(FLT)); v = r.choice(["0.5", "2", "1e-3", "0", "2048"]); t = {"0.5": "0.5", "2": "2", "1e-3": "0.00100000005", "0": "0", "2048": "2048"}[v]; return Opt(spell(r, n, v), scalar(n, FLT[n], t, v))
    if k in (5, 6):
        n = r.choice(list(LST)); vs = [value(r, n).replace(",", ";") for _ in range(r.randrange(1, 4) if n in COMMA else 1)]; return Opt(spell(r, n, ",".join(vs)), lister(LST[n], vs))
    if k in (7, 8):
        n = r.choice(list(BOOL)); t = r.choice(["", "", "=true", "=false", "=1", "=0", "=TRUE", "=False"]); v = "false" if t.lower() in ("=false", "=0") else "true"; d = "-" if n == "v" else r.choice(["-", "--"]); return Opt([d + n + t], scalar(n, BOOL[n], v, v), verbose=False)
    if k in (9, 10):
        n = r.choice(list(FLAGS)); g, v = FLAGS[n]; return Opt([r.choice(["-", "--"]) + n], scalar(n, g, str(v), v))
    if k == 11:
        if r.random() < 0.5:
            n = r.choice(list(BITS)); b = BITS[n]
            def f(st): st["instrumentControlBits"] = str(int(st["instrumentControlBits"]) | 1 << b)
            return Opt([r.choice(["-", "--"]) + n], f)
        n = r.choice(list(ENUM)); g, vals = ENUM[n]; w = r.choice(list(vals))
        if g == "profileIR" and w == "ZHigh": w = "Onnx"
        return Opt(spell(r, n, w), scalar(n, g, str(vals[w]), w))
    n = r.choice(["L", "l"]); v = r.choice(["a", "extra", "/opt/x/lib", "b"]) if n == "L" else r.choice(["m", "foo", "bar"]); g = "extraLibPaths" if n == "L" else "extraLibs"
    return Opt([f"-{n}{v}"], lister(g, [v]))
def quoted(a): return "'" + a.replace("\\", "\\\\").replace("'", "\\'") + "'" if any(c in a for c in " '\"\\") or a == "" else a
def envtext(r, opts):
    out = []
    for o in opts:
        for a in o.args:
            if "'" in a: a2 = '"' + a + '"'
            elif " " in a: q = r.choice("'\""); a2 = q + a + q
            else: a2 = a
            out.append(a2)
    return r.choice([" ", "  ", " \t"]).join(out)
def reduce(a):
    if "=" in a:
        i = a.index("="); v = a[i+1:]; return a[:i+1] + (v.rsplit("/", 1)[-1])
    return a.rsplit("/", 1)[-1]
# where the executable lives: beside it a tool, a lib directory
def layouts():
    ls = []
    for i, (lib, tools, d) in enumerate([(True, ["opt", "llc"], "bin"), (False, ["llc"], "bin"), (True, [], "tools"), (True, ["noexec:opt"], "bin")]):
        base = f"{ROOT}/inst{i}"; os.makedirs(f"{base}/{d}")
        if lib: os.makedirs(f"{base}/lib")
        exe = f"{base}/{d}/onnx-mlir"
        try: os.link(EXE, exe)
        except OSError: shutil.copy(EXE, exe)
        for t in tools:
            p = f"{base}/{d}/{t.split(':')[-1]}"; open(p, "w").close(); os.chmod(p, 0o644 if "noexec" in t else 0o755)
        ls.append((exe, base, d, lib, [t for t in tools if ":" not in t]))
    return ls
LAY = layouts()
BASE = {}
def launch(exe, args, env, cwd, rec):
    e = {k: v for k, v in os.environ.items() if not k.startswith("ONNX_MLIR")}; e.update(env); e["OMAIN_RECORD"] = rec
    if os.path.exists(rec): os.unlink(rec)
    p = subprocess.run([exe, *args], env=e, cwd=cwd, capture_output=True, timeout=120, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
def baseline():
    if BASE: return
    for l in LAY:
        rc, o, e = launch(l[0], ["m.onnx"], {}, ROOT, f"{ROOT}/rec")
        d = read(f"{ROOT}/rec") if os.path.exists(f"{ROOT}/rec") else None
        if rc or d is None: M.violate("default-run", f"exit {rc}: {e[:500]}"); return
        BASE[l[0]] = d
    d = BASE[LAY[0][0]]
    for g, v in {"OptimizationLevel": "0", "emissionTarget": "5", "enableONNXHybridPass": "true", "disableMemRefPrefetch": "true", "nnpaEpsilon": "9.99999975e-06", "onnxConstPropExpansionBound": "-1", "onnxOpTransformThreshold": "3", "constantsToFileTotalThreshold": "1.5", "constantsToFileSingleThreshold": "1", "modelTag": "", "march": "", "mcpu": "", "storeConstantsToFile": "true", "verifyInputTensors": "true", "allowSorting": "true", "enableConvOptPass": "true", "useOnnxModelTypes": "true", "instrumentSignatures": "NONE", "instrumentOnnxNode": "NONE", "modelSize": "0", "Xopt": [], "extraLibs": [], "maccel": [], "out": "m"}.items():
        if d[g] != v: M.violate("default:" + g, f"{d[g]!r}, documented {v!r}")
JUNK = [b"", b"{", b"[]", b"[\"-O3\"]", b"3", b"\"-O3\"", b"null", b"{\"compile_options\": [\"-O3\"]", b"{'compile_options': []}", b"{\"compile_options\": [\"-O3\",]}", b"{\"compile_options\": [\"\xff\xfe\"]}", b"{\"compile_options\":[\"-O3\"]} x", b"\x00\x01", b"{\"a\":1,}", b"{" * 3000]
def case(r, i):
    baseline()
    if not BASE: return
    exe, base, bd, haslib, tools = LAY[r.randrange(len(LAY)) if r.random() < 0.3 else 0]
    d = f"{ROOT}/c{i}"; os.makedirs(f"{d}/cwd/models/sub"); os.makedirs(f"{d}/out"); cwd = f"{d}/cwd"; os.makedirs(f"{d}/cfg")
    model = r.choice(["m.onnx", "models/m.onnx", "models/sub/a.b.onnx", f"{cwd}/models/n.mlir", "./m.onnx", "models/../m2.onnx", "-", "model"]); mdir = os.path.join(cwd, os.path.dirname(model) if model != "-" else ".")
    conf = [option(r, "config") for _ in range(r.randrange(0, 6))]; env = [option(r, "env") for _ in range(r.randrange(0, 5) if r.random() < 0.6 else 0)]; cli = [option(r, "cli") for _ in range(r.randrange(0, 6))]
    # output name
    if r.random() < 0.4:
        o = r.choice(["res", "../out/res", f"{d}/out/r.x", ".", "..", "../out/..", "-", "sub/", "a..", "model.onnx"])
        if o != "sub/":
            where = r.choice([conf, cli, cli, env]); where.insert(r.randrange(len(where) + 1), Opt(spell(r, "o", o), scalar("o", "outputBaseName", o, o)))
    # invalid options anywhere
    bad = None
    if r.random() < 0.06:
        b = r.choice([["--no-such-option"], ["-O7"], ["-j=x"], ["--repeatOnnxTransform=1.5"], ["-maccel=FOO"], ["--modelSize=medium"], ["--printIR=maybe"], ["-j", "-5"], ["--EmitFoo"], ["-j 8x"], ["--split-input-file=banana"]])
        bad = r.choice([conf, cli, env]); bad.insert(r.randrange(len(bad) + 1), Opt(b, lambda st: None))
    # how the configuration reaches the compiler
    how = r.choice(["none", "default", "default", "explicit", "explicit", "missing", "junk", "junk-explicit"])
    vconf = False; files = {}; cargs = []; applied = []
    doc = {"compile_options": [a for o in conf for a in o.args]}
    if r.random() < 0.3: doc = {"other": [1, {"compile_options": ["-O1"]}], **doc, "z": None}
    if not doc["compile_options"] and r.random() < 0.5: del doc["compile_options"]
    text = json.dumps(doc, indent=r.choice([None, 0, 2]), ensure_ascii=r.random() < 0.5).encode()
    if bad is conf and how not in ("default", "explicit"): bad = None
    if how == "default": files[os.path.join(mdir, "omconfig.json")] = text; applied = conf
    elif how == "junk": files[os.path.join(mdir, "omconfig.json")] = r.choice(JUNK)
    elif how in ("explicit", "missing", "junk-explicit"):
        p = r.choice(["../cfg/my.json", f"{d}/cfg/my.json", "local.json", "models/omconfig.json"])
        if how != "missing": files[os.path.join(cwd, p)] = r.choice(JUNK) if how == "junk-explicit" else text
        if how == "explicit": applied = conf
        cargs = spell(r, "config-file", p)
    # decoys that must not be read
    for q in [f"{cwd}/omconfig.json", f"{d}/out/omconfig.json", f"{cwd}/models/omconfig.json", f"{cwd}/models/sub/omconfig.json", f"{d}/cfg/omconfig.json", f"{ROOT}/omconfig.json" if False else f"{d}/omconfig.json"]:
        n = os.path.normpath(q)
        if n in [os.path.normpath(x) for x in files]: continue
        if n == os.path.normpath(os.path.join(mdir, "omconfig.json")) and how not in ("explicit", "junk-explicit", "missing"): continue
        if how == "missing" and n == os.path.normpath(os.path.join(cwd, cargs[-1].split("=", 1)[-1])): continue
        if r.random() < 0.5: files[n] = json.dumps({"compile_options": ["--tag=DECOY", "-l", "decoy", "--Xopt=decoy"]}).encode()
    for p, t in files.items(): open(p, "wb").write(t)
    # environment
    evar, eargs, e = "ONNX_MLIR_FLAGS", [], {}
    if r.random() < 0.3:
        evar = r.choice(["MY_FLAGS", "X", "ONNX_MLIR_FLAGS_2"]); eargs = spell(r, "customEnvFlags", evar)
        e["ONNX_MLIR_FLAGS"] = "--tag=DECOY --Xllc=decoy"
        # in the configuration or on the command line
        if applied and r.random() < 0.4: applied = [Opt(eargs, lambda st: None)] + applied; doc["compile_options"] = [a for o in applied for a in o.args]; open(next(p for p, t in files.items() if t is text), "wb").write(json.dumps(doc).encode()); eargs = []
    if env: e[evar] = envtext(r, env)
    elif evar == "ONNX_MLIR_FLAGS": e.pop("ONNX_MLIR_FLAGS", None)
    libenv = r.random()
    if libenv < 0.15: e["ONNX_MLIR_LIBRARY_PATH"] = d
    elif libenv < 0.25: e["ONNX_MLIR_LIBRARY_PATH"] = f"{d}/absent"
    groups = [o.args for o in cli] + ([cargs] if cargs else []) + ([eargs] if eargs else []); groups0 = [o.args for o in cli]
    extra = [g for g in groups[len(groups0):]]
    order = list(groups0)
    for g in extra: order.insert(r.randrange(len(order) + 1), g)
    order.insert(r.randrange(len(order) + 1), [model])
    args = [a for g in order for a in g]
    rec = f"{d}/record"
    rc, out, err = launch(exe, args, e, cwd, rec)
    what = f"args {args} config({how}) {[a for o in applied for a in o.args]} env {evar}={e.get(evar)!r} model {model}"
    M.ev(); M.count("how_" + how); M.distinct((args, how, [o.args for o in applied], [o.args for o in env])); M.sample(what)
    got = read(rec) if os.path.exists(rec) else None
    if rc < 0 or rc == 77 or "Sanitizer" in err: M.violate("crash", f"{what}: exit {rc} {err[-600:]}"); return
    if how == "missing" and not err.startswith("Warning") and "not found" not in err: M.violate("missing-config-silent", f"{what}: {err!r}")
    if how.startswith("junk") and ("rror" not in err): M.violate("malformed-config-silent", f"{what}: {err!r}")
    if bad is not None:
        M.count("invalid_options")
        if rc == 0 or got is not None: M.violate("invalid-option-accepted", f"{what}: exit {rc} {err!r}")
        elif rc != 13: M.violate("invalid-option-code", f"{what}: exit {rc}")
        elif not err.strip(): M.violate("invalid-option-silent", what)
        shutil.rmtree(d); return
    if rc != 0 or got is None: M.violate("rejected", f"{what}: exit {rc} {err[:600]}"); return
    st = dict(BASE[exe]); st["outputBaseName"] = "-"; st["inputFilename"] = model
    for o in env + applied + cli: o.apply(st)
    if cargs: st["configFile"] = cargs[-1] if len(cargs) == 2 else cargs[0].split("=", 1)[1]
    for a in applied: pass
    ob = st["outputBaseName"]
    if ob == "-" or set(ob.rsplit("/", 1)[-1]) <= {"."}:
        if ob != "-" and "nvalid -o" not in err: M.violate("bad-output-name-silent", what)
        ob = "stdin" if model == "-" else model[:model.rindex(".")] if "." in model else model
    st["outputBaseName"] = st["out"] = ob
    st["target"] = st["emissionTarget"]
    if st["enableFastMathOption"] == "true" and "enable-unsafe-fp-math" not in st["mllvm"]: st["mllvm"] += " --enable-unsafe-fp-math"
    j = int(st["compilationNumThreads"]); st["threads"] = str(j) if j else st["threads"]; st["multithreaded"] = "false" if j == 1 else "true"
    st["record"] = " ".join(reduce(a) for a in [a for o in applied for a in o.args] + args)
    lp = d if libenv < 0.15 else f"{base}/lib" if haslib and bd == "bin" else None
    st["libpath"] = lp or os.path.join(st["instpath"], "lib")
    em = int(st["emissionTarget"])
    st["libdeps"], st["libpaths"] = [], []
    if em >= 5:
        st["libdeps"] = (["cruntime"] if em == 5 else ["jniruntime", "cruntime"]) + (["ompruntime"] if st["enableParallel"] == "true" else []) + st["extraLibs"]
        st["libpaths"] = [st["libpath"]] + st["extraLibPaths"]
    for t in ("opt", "llc", "cxx", "onnx-mlir"): st["tool:" + t] = f"{base}/{bd}/{t}" if t in tools + ["onnx-mlir"] else st["built:" + t]
    for k in sorted(set(st) | set(got)):
        M.count("options_compared")
        if k == "threads" and j > 1: 
            # LLVM limits the pool to what the machine has
            if not (1 <= int(got[k]) <= j): M.violate("option:threads", f"{what}: {got[k]}")
            continue
        if st.get(k) != got.get(k): M.violate("option:" + k, f"{what}: {got.get(k)!r} instead of {st.get(k)!r}")
    if ("DECOY" in str(got)) or "decoy" in str(got): M.violate("decoy", what)
    shutil.rmtree(d)
try: M.run("main", N, case)
finally: shutil.rmtree(ROOT, ignore_errors=True)
M.finish()
