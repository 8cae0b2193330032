from common import *
TECH = "the real extension module and PyRuntime.py under AddressSanitizer, with a scripted model recording what arrives; results, aliasing, lifetime and heap growth are monitored"
NOTE = ("15 element types, 11 memory layouts, output kinds (fresh, offset, shared allocation, static, aliasing an input, strings); outputs are re-checked after their model constants, inputs, siblings and session are gone (freed memory is overwritten); "
        "13 kinds of wrong use must raise and leave the session usable; 14 loops must not grow the heap.")
VPY = "/opt/vp/venv/bin/python"
ASANLIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
# pybind11 before 2.12 misreads the array descriptors of numpy 2 (item sizes become 0): compile against a
# copy of its headers with numpy 2's descriptor, as a deployment with matching versions has.
PYB = "/usr/include/pybind11"
def pybind_inc():
    v = open(f"{PYB}/detail/common.h").read(); v = tuple(int(re.search(rf"define PYBIND11_VERSION_{k} +(\d+)", v).group(1)) for k in ("MAJOR", "MINOR"))
    np = subprocess.run([VPY, "-c", "import numpy;print(numpy.__version__)"], capture_output=True, text=True).stdout
    if v >= (2, 12) or not np or int(np.split(".")[0]) < 2: return []
    s = open(f"{PYB}/numpy.h").read(); d = os.path.join(BUILD, "pybind11-" + sha(s)[:12])
    if not os.path.exists(d):
        t = tempfile.mkdtemp(dir=BUILD); shutil.copytree(PYB, f"{t}/pybind11")
        old = "    char flags;\n    int type_num;\n    int elsize;\n    int alignment;\n    char *subarray;\n"; assert s.count(old) == 1 and s.count("API_PyArray_CopyInto = 82") == 1
        s = s.replace(old, "    char flags_;\n    int type_num;\n    std::uint64_t flags;\n    ssize_t elsize;\n    ssize_t alignment;\n    PyObject *metadata;\n    ssize_t hash;\n    void *reserved[2];\n    char *subarray;\n").replace("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50").replace('"numpy.core.multiarray"', '"numpy._core.multiarray"')
        open(f"{t}/pybind11/numpy.h", "w").write(s)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return ["-isystem", d]
def pyext():
    fl = [*ASAN, *INC, *LLVM_CXX, *pybind_inc(), "-isystem", "/usr/include/python3.12", "-fvisibility=hidden"]
    return objs([f"{RT}/python/PyExecutionSession.cpp", f"{RT}/ExecutionSession.cpp", f"{RT}/OMTensorHelper.cpp", f"{RT}/OMTensorListHelper.cpp"], fl)
def build(c):
    so = link2("PyRuntimeC.so", [*pyext(), *crt("asan")], [*ASAN, "-shared", "-shared-libasan"], ["-ldl", "-lm"])
    model = link2("pymodel.so", [obj(f"{H}/pymodel.c", [*ASAN, *HINC]), *crt("asan")], [*ASAN, "-shared", "-shared-libasan"], ["-lm"], cc="clang")
    d = os.path.join(c.tmp, "py"); os.makedirs(d)
    os.symlink(so, f"{d}/PyRuntimeC.so"); shutil.copy(f"{REPO}/src/Runtime/python/PyRuntime.py", d); shutil.copy(model, f"{d}/pymodel.so")
    return d
def run(c):
    d = build(c)
    env = {"LD_PRELOAD": ASANLIB, "PYTHONPATH": d, "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONFAULTHANDLER": "0",
           "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_free_fill_size=1048576:free_fill_byte=221:handle_segv=1:allow_user_segv_handler=1"}
    c.harness(VPY, [f"{H}/p17.py", c.scale(8000, 300000), f"{d}/pymodel.so"], shards=8, timeout=800, env=env, name="p17")
    return dict(rule="random arrays, layouts, output scripts and wrong uses; distinct by types, shapes, layouts, options and output kinds", assumptions=["outputs of a model are dense (row-major), as compiled models produce them"])
