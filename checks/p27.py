from common import *
import subprocess
TECH = "a complete JNI environment of our own that checks how it is used and fails each call or allocation in turn, under ASan/UBSan; and a real JVM with -Xcheck:jni against a model that reports what it received"
NOTE = ("Every JNI call and native allocation of a call fails in turn: a Java exception must be pending, no native block, array or string may stay acquired. "
        "In the JVM: every constructor, setter and getter, all element types, empty and scalar tensors, long lists, wrong arguments, failing models, log settings, several threads, small heaps.")
VPY = "/opt/vp/venv/bin/python"
JDK = "/usr/lib/jvm/java-17-openjdk-amd64"
JNI = f"{RT}/jni"; JSRC = f"{JNI}/src/com/ibm/onnxmlir"
def java():
    """Classes and generated native headers."""
    srcs = [f"{JSRC}/{n}.java" for n in ("OMLogger", "OMModel", "OMTensor", "OMTensorList")] + [f"{H}/P27Driver.java"]
    d = os.path.join(BUILD, "java-" + sha(*[open(s).read() for s in srcs])[:16])
    if not os.path.exists(d):
        t = tempfile.mkdtemp(dir=BUILD); p = subprocess.run([f"{JDK}/bin/javac", "-nowarn", "-encoding", "UTF-8", "-d", f"{t}/cls", "-h", f"{t}/gen", *srcs], capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-3000:])
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return d
def build():
    d = java(); inc = [*INC, f"-I{d}/gen", f"-I{JNI}", f"-I{JDK}/include", f"-I{JDK}/include/linux", "-w"]
    srcs = [f"{JNI}/jniwrapper.c", f"{JNI}/jnilog.c"]; rt = c_runtime_sources() + [f"{REPO}/src/Support/SmallFPConversion.c"]
    wrap = [f"-Wl,--wrap={w}" for w in ("malloc", "free", "calloc", "realloc", "strdup")]
    mock = link2("p27", [hobj("p27.cpp", flags=inc), *objs(srcs, [*ASAN, *inc]), *crt("asan")], [*ASAN, *wrap], ["-ldl", "-lm"])
    fl = ["-O1", "-g", "-fPIC", *inc]
    so = link2("p27model.so", objs([f"{H}/p27model.c", *srcs, *rt], fl), ["-shared"], ["-lm"], cc="clang")
    return mock, so, f"{d}/cls"
def run(c):
    mock, so, cls = build()
    c.harness(mock, [c.scale(1600, 60000)], shards=8, timeout=800)
    c.harness(VPY, [f"{H}/p27.py", c.scale(40, 1200), so, cls, f"{JDK}/bin/java"], shards=8, timeout=800, name="p27jvm")
    return dict(rule="random tensor lists, models and faults; distinct by case, fault position and JVM settings", assumptions=["the tensor's data has as many elements as its shape", "inputs are dense: strides are not handed to the model", "a model has at least one output", "string tensors are not supported by the binding"])
