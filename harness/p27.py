"""P27: the real Java classes and native binding in a JVM, each run with its own log settings, heap and threads."""
import os, shutil, subprocess, sys, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from monpy import Mon
m = Mon(); n, so, classes, JAVA = int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4]
def case(r, i):
    d = os.path.join(m.tmp, f"jvm{i}" + r.choice(["", " with space", "ż", "%41+"])); os.makedirs(d); jar = os.path.join(d, r.choice(["model.jar", "m odel.jar"]))
    with zipfile.ZipFile(jar, "w") as z:
        for b, _, fs in os.walk(classes):
            for f in fs: z.write(os.path.join(b, f), os.path.relpath(os.path.join(b, f), classes))
        z.write(so, r.choice(["libmodel.so", "lib/deep/model.so"])); z.writestr("readme.so.txt", "not a library")
    env = {k: v for k, v in os.environ.items() if not k.startswith("ONNX_MLIR")} | {"LC_ALL": "C.UTF-8"}; out = os.path.join(d, "out"); lg = r.choice([None, "trace", "debug", "info", "error", "bogus"]); lf = r.choice([None, "stdout", "stderr", os.path.join(d, "log"), os.path.join(d, "absent", "log")])
    if lg: env["ONNX_MLIR_JNI_LOG_LEVEL"] = lg
    if lf: env["ONNX_MLIR_JNI_LOG_FILE"] = lf
    threads, calls, check = r.choice([1, 1, 2, 6]), r.choice([120, 300, 800]), r.random() < .7
    argv = [JAVA, f"-Xmx{r.choice([48, 256])}m", "-XX:+UseSerialGC" if r.random() < .5 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=1", f"-XX:ErrorFile={d}/hs", "-XX:-CreateCoredumpOnCrash", *(["-Xcheck:jni"] if check else []), "-cp", jar, "com.ibm.onnxmlir.P27Driver", out, str(r.randrange(1 << 40)), str(calls), str(threads)]
    what = f"log {lg} to {lf and os.path.basename(lf)}, {threads} threads, {calls} calls, {' '.join(argv[1:3])}"
    p = subprocess.run(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=300); txt = p.stdout.decode("utf-8", "replace")
    lines = open(out, encoding="utf-8", errors="replace").read().split("\n") if os.path.exists(out) else []
    for l in lines:
        f = l.split("\t")
        if f[0] == "VIOL": m.violate("java:" + f[1], f[2] + " with " + what)
        elif f[0] == "CNT": m.count("java_" + f[1], int(f[2]))
        elif f[0] == "EV": m.ev(int(f[1]))
    if p.returncode or "END" not in lines: m.violate("java:crash", f"the JVM ends with {p.returncode}: {txt[-600:]} with {what}")
    for w in ("FATAL ERROR in native method", "WARNING in native method"):
        if w in txt: k = txt.index(w); m.violate("java:check-jni", txt[k:k + 400] + " with " + what)
    left = [f for f in os.listdir(d) if f.startswith("native_")]
    if left: m.violate("java:temporary-library", f"{left} left behind with {what}")
    if lf and lf.startswith(d) and not lf.endswith("absent/log") and lg in ("trace", "debug"):
        m.count("log_files_checked")
        if not [f for f in os.listdir(d) if f.startswith("log.")]: m.violate("java:log-file", "no log file with " + what)
    m.count("jvms"); m.count("checked_jvms", int(check)); m.distinct(what); m.sample(what); shutil.rmtree(d)
m.run("jvm", n, case); m.finish()
