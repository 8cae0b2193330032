"""P29: the real binary-decoder on random files, ranges and types; what it prints is decoded again from the bytes."""
import os, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from monpy import Mon
m = Mon(); n, exe = int(sys.argv[1]), sys.argv[2]
T = {"FLOAT": ("f", 4), "UINT8": ("B", 1), "INT8": ("b", 1), "UINT16": ("H", 2), "INT16": ("h", 2), "INT32": ("i", 4), "INT64": ("q", 8), "BOOL": (None, 1), "DOUBLE": ("d", 8), "UINT32": ("I", 4), "UINT64": ("Q", 8)}
def g(x): # C++ stream, default precision
    return "%g" % x if x == x else "nan"
def render(t, b):
    f, w = T[t]
    if t == "BOOL": return "".join("".join(str(c >> i & 1) for i in range(8)) + " " for c in b) + "\n"
    v = struct.unpack(f"<{len(b) // w}{f}", b[:len(b) // w * w]); return "".join((g(x) if f in "fd" else str(x)) + " " for x in v) + "\n"
def norm(s): return s.replace("-nan", "nan")
def data(r, size):
    k = r.randrange(4)
    if k == 0: return r.randbytes(size)
    if k == 1: return bytes(r.choice([0, 1, 127, 128, 255, 65, 10, 32]) for _ in range(size))
    if k == 2: return b"".join(struct.pack("<f", r.choice([0.0, -0.0, 1.1, 1e-30, 3.4e38, 123456.7, 0.1 + r.random(), -r.random() * 10 ** r.randrange(-8, 12)])) for _ in range(size // 4 + 1))[:size]
    return b"".join(struct.pack("<d", r.choice([0.5, 1e300, -1e-300, 1 / 3, 1e15 + 1, float("inf"), r.gauss(0, 1e6)])) for _ in range(size // 8 + 1))[:size]
def case(r, i):
    d = os.path.join(m.tmp, f"c{i}"); os.makedirs(d); name = r.choice(["model.constants.bin", "a b", "ż.bin", "-x"]); f = os.path.join(d, name); base = 0; other = os.path.join(d, "other.bin"); open(other, "wb").write(b"keep"); kind = r.choices(["file", "link", "sparse", "missing", "directory", "empty"], [60, 6, 4, 5, 3, 4])[0]
    size = r.choice([0, 1, 7, 8, 40, r.randrange(1, 400), r.randrange(1, 400), 9000]); b = data(r, size); t = r.choice(list(T)); w = T[t][1]
    if kind == "empty": b = b""
    if kind in ("file", "empty"): open(f, "wb").write(b)
    elif kind == "link": open(os.path.join(d, "target"), "wb").write(b); os.symlink("target", f)
    elif kind == "sparse":
        base = r.choice([2 ** 31 - 20, 2 ** 31, 2 ** 32 - 3, 5 * 2 ** 30])
        with open(f, "wb") as h: h.truncate(base); h.seek(base); h.write(b)
    elif kind == "directory": os.makedirs(f)
    how = r.choices(["in", "all", "past end", "starts past end", "negative start", "negative size", "huge size", "huge start", "no type", "unsupported", "zero", "overflow"], [40, 10, 6, 4, 3, 3, 2, 3, 3, 4, 3, 2])[0]; L = len(b); start, cnt = base, L
    if how == "in": start = r.randrange(0, L + 1); cnt = r.randrange(0, L - start + 1); cnt -= cnt % w if r.random() < .9 else 0; start += base
    elif how == "all": cnt -= cnt % w
    elif how == "past end": start = base + r.randrange(0, L + 1); cnt = base + L - start + r.choice([1, 2, 8, 100, 10 ** 6])
    elif how == "starts past end": start = base + L + r.choice([1, 8, 1000, 2 ** 31]); cnt = r.choice([0, 8, 40])
    elif how == "negative start": start = -r.choice([1, 4, 100, 2 ** 33]); cnt = r.choice([4, 8, 40])
    elif how == "negative size": cnt = -r.choice([1, 8, 2 ** 40])
    elif how == "huge size": cnt = r.choice([2 ** 40, 2 ** 62, 2 ** 63 - 1])
    elif how == "huge start": start = r.choice([2 ** 62, 2 ** 63 - 1]); cnt = r.choice([0, 8])
    elif how == "overflow": start = base + L // 2; cnt = 2 ** 63 - 1 - r.randrange(4)
    elif how == "zero": cnt = 0
    typ = [f"--onnx::TensorProto::{t}"]
    if how == "no type": typ = []
    if how == "unsupported": t = r.choice(["FLOAT16", "STRING"]); typ = [f"--onnx::TensorProto::{t}"]
    rm = r.random() < .4; parts = [["-s", str(start)] if r.random() < .6 else [f"-s={start}"], ["-n", str(cnt)] if r.random() < .6 else [f"-n={cnt}"], typ, ["-rm"] if rm else [], [name if r.random() < .5 and name[0] != "-" else f]]; r.shuffle(parts); argv = [exe] + [x for p in parts for x in p]
    what = f"{' '.join(argv[1:])} on {kind} of {L} bytes{f' from {base}' if base else ''} ({how})"; p = subprocess.run(argv, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120); out = p.stdout.decode("latin1"); err = p.stderr.decode("utf-8", "replace"); m.ev(1 + cnt.bit_length()); m.count("runs"); m.count("how_" + how.replace(" ", "_")); m.count("kind_" + kind); exists = os.path.lexists(f)
    possible = kind not in ("missing", "directory") and start >= 0 and cnt >= 0 and start <= base + L and cnt <= base + L - start; whole = t not in T or cnt % w == 0
    if "Sanitizer" in err or "runtime error" in err or p.returncode < 0 or p.returncode == 77: m.violate("crash", f"{p.returncode} {err[-500:]} for {what}")
    elif possible and how not in ("no type", "unsupported"):
        h = base and (b"\0" * 0); seg = b[start - base:start - base + cnt] if start >= base else None
        if seg is None: seg = (b"\0" * (base - start) + b)[:cnt]
        want = render(t, seg); m.count("elements_checked", len(want.split()))
        if p.returncode == 0:
            if norm(out) != norm(want): k = next((j for j in range(min(len(out), len(want))) if out[j] != want[j]), min(len(out), len(want))); m.violate("text", f"'{out[max(0, k - 20):k + 60]}' for '{want[max(0, k - 20):k + 60]}' of {what}")
            if exists == rm: m.violate("removal", f"the file {'remains' if exists else 'is gone'} after {what}")
            m.count("removed", int(rm))
        elif whole: m.violate("rejected", f"status {p.returncode} {err[:200]} for {what}")
        elif not err.strip(): m.violate("silent", f"no message for {what}")
    else:
        m.count("impossible")
        if p.returncode == 0: m.violate("accepted:" + (how if kind in ("file", "link", "sparse", "empty") else kind), f"status 0 and output '{out[:60]}' for {what}")
        elif not err.strip(): m.violate("silent", f"no message for {what}")
        if kind != "missing" and not exists: m.violate("removed-undecoded", f"the file is gone after {what}")
    if open(other, "rb").read() != b"keep": m.violate("other-file", what)
    m.distinct((kind, how, t, rm, cnt, start)); m.sample(what); shutil.rmtree(d)
m.run("decode", n, case); m.finish()
