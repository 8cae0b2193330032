"""Builds the compiler itself (onnx-mlir) from /repo's sources against the installed MLIR 20 and ONNX
1.14: harness/mlir20/overlay.py adds to copies of a few headers the names the sources take from newer
releases. TOSA, StableHLO, Linalg and the accelerators are left out."""
from common import *
import glob
LL = "/usr/lib/llvm-20"
OV, TG = os.path.join(BUILD, "mlir20-" + file_hash(f"{H}/mlir20/overlay.py")[:8]), os.path.join(BUILD, "tg")
def _stamp(path, key, make):
    st = os.path.join(path, ".stamp")
    if os.path.exists(st) and open(st).read() == key: return
    make()
    open(st, "w").write(key)
def overlay():
    src = f"{H}/mlir20/overlay.py"
    def make():
        shutil.rmtree(OV, ignore_errors=True)
        subprocess.run([sys.executable, src, OV], check=True)
    _stamp(OV, file_hash(src), make)
GEN = []
for D, n in (("Krnl", "krnl"), ("ONNX", "onnx")):
    for what, name, extra in (("attrdef", "Attributes", [f"-attrdefs-dialect={n}"]), ("dialect", "Dialect", [f"-dialect={n}"]), ("op", "Ops", []), ("typedef", "Types", [f"-typedefs-dialect={n}"])):
        for kind, ext in (("decls", "hpp"), ("defs", "cpp")):
            GEN.append((f"Dialect/{D}/{D}.td", f"Dialect/{D}/{D}{name}.{ext}.inc", [f"-gen-{what}-{kind}", *extra]))
for i in ("HasOnnxSubgraph", "ResultTypeInference", "ShapeHelper", "ShapeInference", "SpecializedKernel"):
    for kind, ext in (("decls", "hpp"), ("defs", "cpp")):
        GEN.append((f"Interface/{i}OpInterface.td", f"Interface/{i}OpInterface.{ext}.inc", [f"-gen-op-interface-{kind}"]))
GEN += [("Dialect/ONNX/Transforms/Passes.td", "Dialect/ONNX/Transforms/Passes.h.inc", ["-gen-pass-decls", "-name", "ONNXTransforms"]),
        ("Transform/Passes.td", "Transform/Passes.h.inc", ["-gen-pass-decls", "-name", "Transforms"]),
        ("Transform/PassesKrnl.td", "Transform/PassesKrnl.h.inc", ["-gen-pass-decls", "-name", "TransformsKrnl"]),
        ("Conversion/ONNXToLinalg/Passes.td", "Conversion/ONNXToLinalg/Passes.h.inc", ["-gen-pass-decls", "-name", "ONNXToLinalg"]),
        ("Dialect/ONNX/ONNXOps/Canonicalize.td", "Dialect/ONNX/ONNXOps/ONNXCanonicalize.inc", ["-gen-rewriters"]),
        ("Dialect/ONNX/Transforms/ConstProp.td", "Dialect/ONNX/Transforms/ONNXConstProp.inc", ["-gen-rewriters"]),
        ("Dialect/ONNX/Transforms/ConvOpt.td", "Dialect/ONNX/Transforms/ONNXConvOpt.inc", ["-gen-rewriters"]),
        ("Dialect/ONNX/Transforms/Decompose.td", "Dialect/ONNX/Transforms/ONNXDecompose.inc", ["-gen-rewriters"])]
def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)
    with _hl: _fh.pop(path, None)
import vlib
_hl, _fh = vlib._hash_lock, vlib._hash_cache
def tblgen():
    tds = sorted(glob.glob(f"{REPO}/src/**/*.td", recursive=True))
    key = sha(file_hash(__file__), *[f"{t}={file_hash(t)}" for t in tds])
    def make():
        def one(g):
            td, out, flags = g
            src = f"{REPO}/src/{td}"
            p = subprocess.run([f"{LL}/bin/mlir-tblgen", *flags, f"-I{os.path.dirname(src)}", f"-I{REPO}", f"-I{REPO}/src", f"-I{LL}/include", src], capture_output=True, text=True)
            if p.returncode: raise BuildError(p.stderr[-3000:])
            put(f"{TG}/src/{out}", p.stdout)
        with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, GEN))
        put(f"{TG}/src/Accelerators/Accelerators.inc", "#define APPLY_TO_ACCELERATORS(MACRO, ...)\n#define APPLY_TO_NO_ACCELERATORS(MACRO) MACRO\n")
        put(f"{TG}/VCSVersion.inc", "")
        t = open(f"{REPO}/src/Compiler/ExternalUtil.hpp.in").read()
        v = {"$<TARGET_FILE:opt>": f"{LL}/bin/opt", "$<TARGET_FILE:llc>": f"{LL}/bin/llc", "@CMAKE_C_COMPILER@": "/usr/bin/gcc", "@CMAKE_CXX_COMPILER@": "/usr/bin/g++",
             "@CMAKE_LINKER@": "/usr/bin/ld", "@CMAKE_OBJCOPY@": "/usr/bin/objcopy", "@CMAKE_AR@": "/usr/bin/ar", "@Java_JAR_EXECUTABLE@": shutil.which("jar") or "",
             "@ONNX_MLIR_DEFAULT_TRIPLE@": "x86_64-pc-linux-gnu", "@CMAKE_INSTALL_PREFIX@": "/usr/local"}
        for m in set(re.findall(r"@\w+@|\$<[^>]*>", t)): t = t.replace(m, v.get(m, ""))
        put(f"{TG}/inc/ExternalUtil.hpp", t)
    _stamp(TG, key, make) if os.path.isdir(TG) else (os.makedirs(TG, exist_ok=True), _stamp(TG, key, make))
MODE = ["-O0", "-g0"]
def flags():
    return ["-std=c++17", "-w", "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
            '-DLLVM_PACKAGE_VERSION="20.1.2"', '-DONNX_MLIR_VERSION="0"', '-DPRODUCT_ID="NOT_SPECIFIED"', "-DPRODUCT_VERSION_MAJOR=0", "-DPRODUCT_VERSION_MINOR=0", "-DPRODUCT_VERSION_PATCH=0",
            f"-I{REPO}", f"-I{TG}", f"-I{TG}/inc", f"-I{REPO}/include", f"-I{OV}", "-isystem", f"{LL}/include", *MODE]
def pch():
    return cached(["clang++", *flags(), "-fPIC", "-x", "c++-header", "-Xclang", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp",
                   "-MMD", "-MF", "@DEP", f"{H}/mlir20/pch.hpp", "-o", "@OUT"], "omc.pch")
LEFT_OUT = ("src/Accelerators/", "src/Runtime/", "src/Tools/", "src/Conversion/ONNXToStablehlo/", "src/Conversion/ONNXToTOSA/", "src/Conversion/ONNXToLinalg/")
def sources():
    return [f for f in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True)) if not f[len(REPO) + 1:].startswith(LEFT_OUT)]
NO_PCH = ("/CompilerUtils.cpp",)  # takes another class called Diagnostic
def compile(srcs):
    overlay(); tblgen()
    p = pch()
    errs = []
    def one(s):
        try:
            if s.endswith(NO_PCH): return obj(s, flags())
            return obj(s, [*flags(), "-include-pch", p])
        except BuildError as e: errs.append((s, str(e)))
    with cf.ThreadPoolExecutor(JOBS) as ex: r = list(ex.map(one, srcs))
    return r, errs
LIBS = [f"-L{LL}/lib", f"-Wl,-rpath,{LL}/lib", "-lMLIR", "-lLLVM", "-lonnx", "-lonnx_proto", "-lprotobuf"]
def onnx_mlir():
    """The path of the compiler."""
    r, errs = compile([*sources(), f"{REPO}/src/Accelerators/Accelerator.cpp", f"{REPO}/src/Accelerators/InitAccelerators.cpp", f"{H}/mlir20/stubs.cpp"])
    if errs: raise BuildError(errs[0][1])
    r += objs([f"{REPO}/src/Support/SmallFPConversion.c"], [*INC, *MODE])
    return link2("onnx-mlir", r, [], LIBS)
if __name__ == "__main__":
    t = time.time()
    r, errs = compile([s for s in sources() if re.search(sys.argv[1] if len(sys.argv) > 1 else ".", s)])
    print(len(r), "sources", len(errs), "failed", f"{time.time()-t:.0f}s")
    for s, e in errs:
        print("==", s[len(REPO) + 1:]); print("\n".join([l for l in e.splitlines() if "error:" in l][:4]))
