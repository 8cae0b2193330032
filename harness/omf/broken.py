"""Files that are no models, or models that are no models: refused, or compiled if that makes sense, but no crash."""
from main import *
import suites, forms as FM
def any_node(m, r): return r.choice([n for g in FM.eachg(m.graph) for n in g.node])
def s_undefined(m, r, d):
    n = any_node(m, r)
    c = [k for k, x in enumerate(n.input) if x]
    if not c: return None
    n.input[r.choice(c)] = "no such name"; return True
def s_cycle(m, r, d):
    ns = [n for n in m.graph.node if any(n.input) and n.output]
    if not ns: return None
    i = r.randrange(len(ns)); j = r.randrange(i, len(ns)); n = ns[i]
    n.input[r.choice([k for k, x in enumerate(n.input) if x])] = [x for x in ns[j].output if x][0]
    return None if i != j else True  # sometimes only another order
def s_output(m, r, d): m.graph.output[0].name = "nowhere"; return True
def s_short(m, r, d):
    c = [t for t in m.graph.initializer if t.HasField("raw_data") and t.raw_data and t.data_type not in (T.INT64, T.INT32)]  # the ONNX library itself reads those that may be shapes
    if not c: return None
    t = r.choice(c); t.raw_data = t.raw_data[:-1] if r.random() < .5 else t.raw_data[:r.randrange(len(t.raw_data))]; return True
def s_long(m, r, d):
    c = [t for t in m.graph.initializer if t.HasField("raw_data") and t.data_type not in (T.INT64, T.INT32)]
    if not c: return None
    t = r.choice(c); t.raw_data += b"\0" * r.choice([1, 4, 64]); return True
def s_dims(m, r, d):
    c = [t for t in m.graph.initializer if t.dims and t.data_type not in (T.INT64, T.INT32)]
    if not c: return None
    t = r.choice(c); k = r.randrange(len(t.dims)); t.dims[k] = r.choice([-1, t.dims[k] + 1, 1 << 40, -(1 << 62), 1 << 62]); return True if t.raw_data or any(x < 0 for x in t.dims) else None
def s_extern(m, r, d):
    c = list(m.graph.initializer)
    if not c: return None
    t = r.choice(c); n = len(t.raw_data)
    if not n: return None
    f = os.path.join(d, "x.bin"); open(f, "wb").write(t.raw_data[:n - 1])
    q = T(name=t.name, data_type=t.data_type, dims=t.dims, data_location=T.EXTERNAL); w = r.randrange(7)
    for k, v in [[("location", "missing.bin")], [("location", "x.bin")], [("location", "x.bin"), ("offset", "-5")], [("location", "x.bin"), ("offset", "1000000")], [("location", "x.bin"), ("length", "-1")], [("offset", "0")],
                 [("location", "x.bin"), ("offset", "zero"), ("length", "")]][w]: e = q.external_data.add(); e.key = k; e.value = v
    t.CopyFrom(q); return True
def s_escape(m, r, d):
    """External data that lie elsewhere, or may."""
    c = [t for t in m.graph.initializer if t.raw_data]
    if not c: return None
    t = r.choice(c); e = os.path.join(d, "in"); os.mkdir(e); f = os.path.join(d, "x.bin"); open(f, "wb").write(t.raw_data); os.mkdir(os.path.join(e, "sub")); os.symlink(d, os.path.join(e, "up")); os.symlink(os.path.join(e, "sub"), os.path.join(e, "same"))
    open(os.path.join(e, "sub", "y.bin"), "wb").write(t.raw_data); os.symlink(f, os.path.join(e, "link")); os.link(f, os.path.join(e, "hard")); os.symlink("../../x.bin", os.path.join(e, "sub", "link"))
    loc = r.choice(["../x.bin", "sub/../../x.bin", "./../x.bin", f, "up/x.bin", "up/in/sub/y.bin", "same/y.bin", "link", "hard", "sub/link", "sub/../sub/y.bin"])
    q = T(name=t.name, data_type=t.data_type, dims=t.dims, data_location=T.EXTERNAL); x = q.external_data.add(); x.key = "location"; x.value = loc; t.CopyFrom(q); return True
SEM = {k[2:]: v for k, v in globals().items() if k.startswith("s_")}
def damage(raw, r):
    w = r.random()
    if w < .4: return raw[:r.randrange(len(raw))], "cut"
    if w < .8:
        q = bytearray(raw)
        for _ in range(r.choice([1, 1, 2, 5, 20])): q[r.randrange(len(q))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])
        return bytes(q), "bytes"
    if w < .9: i = r.randrange(len(raw)); return raw[:i] + bytes(r.randrange(256) for _ in range(r.randint(1, 9))) + raw[i:], "inserted"
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 50, 1000]))), "noise"
@case
def broken(r, i, d, st):
    b = st["b"] = suites.anyb(r, 10**6, .75) if r.random() < .8 else ops.make(r); m = model(b, declare(b)); o = ["--O" + r.choice("0123")]; must = None; b0 = b.name
    how = list(SEM)[i % (len(SEM) + 8)] if i % (len(SEM) + 8) < len(SEM) else "file"
    if how not in ("undefined", "cycle", "output", "file"):  # about initializers
        while not any(t.raw_data and t.data_type not in (T.INT64, T.INT32) for t in m.graph.initializer): b = st["b"] = suites.anyb(r, 10**6, .75); m = model(b, declare(b)); b0 = b.name
    inp = None; p = os.path.join(d, "f")
    if how == "file":
        kind = r.choice(["onnx", "onnx", "stdin", "json", "onnxtext", "missing", "directory", "mlir"])
        if kind in ("onnx", "stdin"):
            raw, w = damage(m.SerializeToString(), r); how += " " + w; src = p + ".onnx"; open(src, "wb").write(raw)
            if kind == "stdin": src, inp = "-", raw
        elif kind == "missing": src = p + r.choice([".onnx", ".json", ".onnxtext", ".mlir", ".txt", ""]); must = True
        elif kind == "directory": src = p + r.choice([".onnx", ".json", ".onnxtext", ".mlir"]); os.mkdir(src); must = True
        else:
            t = FM.json_format.MessageToJson(m) if kind == "json" else onnx.printer.to_text(m) if kind == "onnxtext" else "module {\n func.func @main_graph(%a: tensor<2xf32>) -> tensor<2xf32> {\n %0 = \"onnx.Neg\"(%a) : (tensor<2xf32>) -> tensor<2xf32>\n onnx.Return %0 : tensor<2xf32>\n }\n \"onnx.EntryPoint\"() {func = @main_graph} : () -> ()\n}\n"
            raw, w = damage(t.encode(), r); how += " " + w; src = p + "." + kind; open(src, "wb").write(raw)
        how += " " + kind
    else:
        must = SEM[how](m, r, d)
        if how == "escape": p = os.path.join(d, "in", "f")
        src = p + ".onnx"; open(src, "wb").write(m.SerializeToString())
    st["opts"] = [*o, how]
    if not must and how.startswith("file") and kind in ("onnx", "stdin"):
        try: q = onnx.ModelProto(); q.ParseFromString(raw); raise Skip  # another model, or none that says so: not what this is about
        except Skip: raise
        except Exception: must = True
    if not must and how.startswith("file") and kind == "json":
        try: FM.json_format.Parse(raw.decode("utf-8"), onnx.ModelProto()); raise Skip
        except Skip: raise
        except Exception: must = w == "cut"  # C++ and Python differ in what else they take
        if not must: raise Skip
    if not must and how.startswith("file") and kind == "onnxtext":
        try: onnx.parser.parse_model(raw.decode("utf-8")); raise Skip
        except Skip: raise
        except Exception: must = w == "cut"
        if not must: raise Skip
    if must is None and not how.startswith("file"): raise Skip
    try: q = subprocess.run([OMC, "--EmitObj", *o, src, "-o", p], input=inp, stdin=None if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=d)
    except subprocess.TimeoutExpired: b.name = how; raise Fail("compile-hangs", "")
    t = q.stdout.decode("utf-8", "replace"); b.name = how
    if q.returncode < 0 or q.returncode >= 128: raise Fail("compiler-crash:" + crash_name(q.returncode, t), t[-300:])
    if q.returncode == 0:
        if must: raise Fail("taken", "")
        if not os.path.exists(p + ".o"): raise Fail("no-output", t[-200:])
        M.count("compiled all the same")
    else:
        if not diag(t): raise Fail("no-message", f"status {q.returncode}")
        M.count("refused")
    M.count("broken " + how.split()[0]); b.name = b0; seen(b, extra=(how, str(must))); M.sample(f"{how} {o} {q.returncode} {diag(t):.120}")
SUITES = {"broken": broken}
