"""One model handed over in several ways: text, JSON, standard input, constants stored in other ways, nodes in another order, parts of it in functions."""
from main import *
import suites
from google.protobuf import json_format
from onnx import external_data_helper as xd
def eachg(g):
    """The graph and those nested in it."""
    yield g
    for n in g.node:
        for a in n.attribute:
            if a.HasField("g"): yield from eachg(a.g)
def f_typed(m, r, d):
    """Initializers and constants in the fields of their types instead of raw bytes."""
    k = 0
    def typed(t):
        a = nh.to_array(t)
        if a.dtype.kind in "OUS" or a.dtype.name.startswith(("int4", "uint4", "float4")): return 0
        dt = t.data_type; q = T(name=t.name, data_type=dt, dims=t.dims)
        if dt in (T.FLOAT16, T.BFLOAT16): q.int32_data.extend(a.reshape(-1).view(np.uint16).astype(int).tolist())
        elif dt in (T.FLOAT8E4M3FN, T.FLOAT8E4M3FNUZ, T.FLOAT8E5M2, T.FLOAT8E5M2FNUZ): q.int32_data.extend(a.reshape(-1).view(np.uint8).astype(int).tolist())
        else: getattr(q, oh.tensor_dtype_to_field(dt)).extend((a.astype(np.uint8) if a.dtype == bool else a).reshape(-1).tolist())
        t.CopyFrom(q); return 1
    for g in eachg(m.graph):
        for t in g.initializer: k += typed(t)
        for n in g.node:
            for a in n.attribute:
                if a.HasField("t"): k += typed(a.t)
    return k
def f_external(m, r, d):
    """Initializers in files beside the model."""
    k = 0; one = r.random() < .6
    for t in m.graph.initializer:
        if t.data_type == T.STRING or r.random() < .2: continue
        raw = nh.from_array(nh.to_array(t), t.name).raw_data
        p = os.path.join(d, "all.bin" if one else r.choice(["", "", "sub/", "a b/c/", "..x/"]) + f"w{k}.bin"); os.makedirs(os.path.dirname(p), exist_ok=True); off = os.path.getsize(p) if os.path.exists(p) else 0
        pad = r.choice([0, 0, 1, 64]) if one else 0
        with open(p, "ab") as f: f.write(b"\xa5" * pad + raw)
        q = T(name=t.name, data_type=t.data_type, dims=t.dims, data_location=T.EXTERNAL)
        for key, v in (("location", os.path.relpath(p, d)), ("offset", off + pad), ("length", len(raw))):
            if one or key == "location" or r.random() < .5: e = q.external_data.add(); e.key = key; e.value = str(v)
        t.CopyFrom(q); k += 1
    return k
def f_nodes(m, r, d):
    """Initializers as Constant nodes, small ones by value."""
    k = 0; first = []; keep = []; names = {x.name for x in m.graph.input}
    for t in m.graph.initializer:
        if t.name in names or r.random() < .15: keep.append(t); continue
        a = nh.to_array(t); at = {"value": nh.from_array(a, t.name)}
        if a.ndim < 2 and r.random() < .6:
            v = a.tolist()
            if a.dtype == np.float32: at = {"value_float": v} if a.ndim == 0 else {"value_floats": v} if a.size else at
            elif a.dtype == np.int64: at = {"value_int": v} if a.ndim == 0 else {"value_ints": v} if a.size else at
        first.append(oh.make_node("Constant", [], [t.name], name=f"cn{k}", **at)); k += 1
    ns = first + list(m.graph.node); del m.graph.node[:], m.graph.initializer[:]
    m.graph.node.extend(ns); m.graph.initializer.extend(keep); return k
def f_initin(m, r, d):
    """Initializers also listed as inputs with a default."""
    raise Skip
def f_shuffle(m, r, d):
    """Nodes in any order."""
    ns = list(m.graph.node)
    if len(ns) < 2: return 0
    r.shuffle(ns); del m.graph.node[:]; m.graph.node.extend(ns); return len(ns)
def used(n):
    o = [x for x in n.input if x]
    for a in n.attribute:
        if a.HasField("g"): o += sum((used(k) for k in a.g.node), []) + [x.name for x in a.g.output]
    return o
def f_function(m, r, d, nest=True):
    """A stretch of the nodes as a model-local function, called once, perhaps through another."""
    ns = list(m.graph.node); i = r.randrange(len(ns)); j = r.randint(i + 1, len(ns)); body, rest = ns[i:j], ns[:i] + ns[j:]
    if any(a.HasField("g") for n in body for a in n.attribute): return 0
    made = [x for n in body for x in n.output if x]; ins = list(dict.fromkeys(x for n in body for x in used(n) if x not in made))
    need = [x.name for x in m.graph.output] + [x for n in rest for x in used(n)]; outs = [x for x in made if x in need]
    if not outs: return 0
    sub = {x: f"a{k}" for k, x in enumerate(ins)} | {x: f"b{k}" for k, x in enumerate(made)}
    if r.random() < .3: sub = {x: x for x in sub}  # names of the graph again
    nb = []
    for n in body:
        q = onnx.NodeProto(); q.CopyFrom(n); del q.input[:], q.output[:]
        q.input.extend([sub[x] if x else "" for x in n.input]); q.output.extend([sub[x] if x else "" for x in n.output]); nb.append(q)
    ops_ = list(m.opset_import); dom = r.choice(["local", "my.domain", "custom_f"])
    at = {}; attrs = []; protos = []
    if r.random() < .5:  # an attribute of a node given by the caller, or by default
        c = [(q, a) for q in nb for a in q.attribute if a.type in (onnx.AttributeProto.INT, onnx.AttributeProto.INTS, onnx.AttributeProto.FLOAT, onnx.AttributeProto.STRING)]
        for q, a in r.sample(c, min(len(c), 2)):
            nm = f"at{len(at) + len(protos)}"; v = onnx.AttributeProto(); v.CopyFrom(a); v.name = nm
            if r.random() < .6: at[nm] = v; attrs.append(nm)
            else: protos.append(v)
            w = onnx.AttributeProto(name=a.name, type=a.type, ref_attr_name=nm); a.CopyFrom(w)
    f = oh.make_function(dom, "Part", [sub[x] for x in ins], [sub[x] for x in outs], nb, [o for o in ops_], attributes=attrs, attribute_protos=protos)
    call = oh.make_node("Part", ins, outs, name="call", domain=dom); call.attribute.extend(at.values())
    fs = [f]
    if nest and not at and r.random() < .3:
        g = oh.make_function(dom, "Outer", [f"i{k}" for k in range(len(ins))], [f"o{k}" for k in range(len(outs))], [oh.make_node("Part", [f"i{k}" for k in range(len(ins))], [f"o{k}" for k in range(len(outs))], domain=dom)], [*ops_, oh.make_opsetid(dom, 1)])
        call = oh.make_node("Outer", ins, outs, name="call", domain=dom); fs.append(g)
    m.opset_import.append(oh.make_opsetid(dom, 1)); m.functions.extend(fs); del m.graph.node[:]
    # the call goes where all it needs is made
    have = {x.name for x in m.graph.input} | {x.name for x in m.graph.initializer}; todo = [call, *rest]; out = []
    while todo:
        for n in todo:
            if all(x in have or x not in [y for q in todo for y in q.output] for x in used(n)): out.append(n); have |= set(n.output); todo.remove(n); break
        else: return -1
    m.graph.node.extend(out); return len(body)
FORMS = {"typed": f_typed, "external": f_external, "nodes": f_nodes, "function": f_function, "shuffle": f_shuffle}
KIND = ["onnx", "onnx", "stdin", "text", "json"]
def hand(m, kind, d, r):
    """Writes the model; returns what to compile and the standard input."""
    p = os.path.join(d, "f")
    if kind == "stdin": return "-", m.SerializeToString()
    if kind == "json":
        open(p + ".json", "w").write(json_format.MessageToJson(m, indent=r.choice([None, 1, 2]), preserving_proto_field_name=r.random() < .5)); return p + ".json", None
    if kind == "text":
        if any(not x for g in eachg(m.graph) for n in g.node for x in n.input): raise Skip  # the installed parser knows no absent inputs
        q = onnx.ModelProto(); q.CopyFrom(m)
        for n in (*(n for g in eachg(q.graph) for n in g.node), *(n for f in q.functions for n in f.node)): n.ClearField("name")
        t = onnx.printer.to_text(q)
        try: back = onnx.parser.parse_model(t)
        except Exception: raise Skip
        for g in (*eachg(back.graph), *eachg(m.graph)):
            for n in g.node: n.name = ""; n.doc_string = ""
        a, c = onnx.ModelProto(), onnx.ModelProto(); a.CopyFrom(back); c.CopyFrom(m)
        if canon(a) != canon(c): raise Skip  # the text does not carry this model
        if r.random() < .5: t = "".join(x + r.choice(["\n", "\n", "\n\n", "\n  // a comment\n", "\n# another\n"]) for x in t.split("\n"))
        if r.random() < .3: t = t.replace(" ", "\n", 3)
        try: back2 = onnx.parser.parse_model("".join(x + "\n" for x in t.split("\n") if not x.lstrip().startswith("//")))
        except Exception: raise Skip
        for g in eachg(back2.graph):
            for n in g.node: n.name = ""
        if canon(back2) != canon(back): raise Skip
        M.count("texts"); open(p + ".onnxtext", "w").write(t); return p + ".onnxtext", None
    onnx.save(m, p + ".onnx"); return p + ".onnx", None
def canon(m):
    def ten(t): return (t.data_type, list(t.dims), str(nh.to_array(t).tolist()) if t.data_location != T.EXTERNAL else str(t.external_data))
    def at(a): return (a.name, ten(a.t)) if a.HasField("t") else (a.name, gr(a.g)) if a.HasField("g") else (a.name, a.ref_attr_name, a.SerializeToString().hex())
    def no(n): return (n.op_type, n.domain, list(n.input), list(n.output), sorted(map(at, n.attribute)))
    def gr(g): return ([no(n) for n in g.node], [(t.name, ten(t)) for t in g.initializer], [(x.name, x.type.SerializeToString().hex()) for x in (*g.input, *g.output)])
    return (gr(m.graph), sorted((o.domain, o.version) for o in m.opset_import), [(f.name, [no(n) for n in f.node], list(f.input), list(f.output), list(f.attribute)) for f in m.functions])
@case
def forms(r, i, d, st):
    b = st["b"] = suites.anyb(r, 10**6, .75) if r.random() < .8 else ops.make(r)
    st["opts"] = o = ["--O" + r.choice("0123")]; m = model(b, declare(b)); told = []
    fs = r.sample(list(FORMS), r.choice([0, 1, 1, 1, 2, 3])); fs.sort(key=list(FORMS).index)
    if "external" in fs and "typed" in fs: fs.remove("typed")
    if "nodes" in fs and "external" in fs: fs.remove("external")
    for f in fs:
        k = FORMS[f](m, r, d)
        if k < 0: raise Skip
        if k: told.append(f)
    kind = r.choice(KIND)
    if "external" in told and kind in ("stdin", "text") or "function" in told and kind == "text": kind = "onnx"  # the installed parser knows neither
    try: src, inp = hand(m, kind, d, r)
    except (Skip, ValueError, KeyError): kind = "onnx"; src, inp = hand(m, kind, d, r)
    told.append(kind); st["opts"] = [*o, *told]
    cmd = [OMC, "--EmitObj", *o, src, "-o", os.path.join(d, "f")]
    try: p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, cwd=d)
    except subprocess.TimeoutExpired: raise Fail("compile-hangs", "")
    t = p.stdout.decode("utf-8", "replace")
    if p.returncode:
        if p.returncode < 0 or p.returncode >= 128: raise Fail("compiler-crash:" + crash_name(p.returncode, t), t[-500:])
        raise Fail("compile-error", diag(t))
    if r.random() < .4:  # the same compilation elsewhere
        e = os.path.join(d, "again"); os.mkdir(e)
        p = subprocess.run([*cmd[:-1], os.path.join(e, "f")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, cwd=e, env={**E, "PADDING": "x" * r.randint(0, 5000)})
        if p.returncode: raise Fail("again-error", diag(p.stdout.decode("utf-8", "replace")))
        x, y = (open(os.path.join(q, "f.o"), "rb").read() for q in (d, e))
        if x != y: raise Fail("again-differs", f"objects of {len(x)} and {len(y)} bytes")
        M.count("compiled again, the same object")
    so = os.path.join(d, "f.so"); link_so([os.path.join(d, "f.o")], so)
    compare(b, run_so(so, [b.vals[x] for x in b.dims], d, "plain", reps=1), b.name)
    for x in told: M.count("form " + x)
    if len(told) > 1: M.count("combined forms")
    seen(b, extra=tuple(told)); M.sample(f"{b.name} {o} {told} {[n.op_type for n in m.graph.node][:6]}")
SUITES = {"forms": forms}
