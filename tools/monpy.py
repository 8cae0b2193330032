"""Monitor library of the Python harnesses (same protocol as mon.hpp)."""
import hashlib, os, random, sys, traceback
class Mon:
    def __init__(m):
        g = lambda k, d: int(os.environ.get(k) or d)
        m.seed, m.shard, m.shards = g("MON_SEED", 1), g("MON_SHARD", 0), g("MON_SHARDS", 1)
        m.thorough = os.environ.get("MON_TIER") == "thorough"
        m.tmp = os.environ.get("MON_TMP", "/tmp")
        o = os.environ.get("MON_OUT")
        m.out = open(o, "a", buffering=1) if o else sys.stdout
        m.only, m.onlyi = None, -1
        c = os.environ.get("MON_CASE")
        if c: m.only, i = c.rsplit(":", 1); m.onlyi = int(i)
        m.cnt, m.evs, m.dis, m.rep, m.nsample = {}, 0, set(), {}, 0
        m.suite, m.cur = "", -1
    def line(m, s): m.out.write(s + "\n")
    @staticmethod
    def clean(s): return "".join(c if ord(c) >= 32 else " " for c in str(s)).encode("utf-8", "replace").decode()[:1500]
    def ev(m, n=1): m.evs += n
    def count(m, k, n=1): m.cnt[k] = m.cnt.get(k, 0) + n
    def distinct(m, x): m.dis.add(hashlib.md5(repr(x).encode("utf-8", "backslashreplace")).digest()[:8])
    def sample(m, s):
        m.nsample += 1
        if m.nsample <= 2: m.line("SAMPLE\t" + m.clean(s))
    def violate(m, key, detail):
        m.rep[key] = m.rep.get(key, 0) + 1
        if m.rep[key] <= 5: m.line(f"VIOL\t{m.clean(key)}\t{m.clean(detail)}\t{m.suite}:{m.cur}")
    def inconclusive(m, s): m.line("INC\t" + m.clean(s))
    def note(m, s): m.line("NOTE\t" + m.clean(s))
    def run(m, name, n, f):
        if m.only and m.only != name: return
        m.suite = name
        for i in range(m.shard, n, m.shards):
            if m.onlyi >= 0 and i != m.onlyi: continue
            m.cur = i
            sys.stderr.write(f"[{name}:{i}]\n"); sys.stderr.flush()
            f(random.Random(f"{m.seed}:{name}:{i}"), i)
    def finish(m):
        m.line(f"EV\t{m.evs}")
        for k, v in sorted(m.cnt.items()): m.line(f"CNT\t{k}\t{v}")
        m.line(f"DIS\t{len(m.dis)}"); m.line("DONE")
        m.out.flush()
