"""python -m irvc contracts/P01.cpp [H_name ...] : debugging driver"""
import json, sys, time, os, re
from . import build, ir, exec as ex, solve

def header(path):
    srcs, opts, defs = [], {}, []
    for l in open(path):
        m = re.match(r"//\s*@sources\s+(.*)", l)
        if m: srcs += m.group(1).split()
        m = re.match(r"//\s*@opts\s+(\S+)\s+(.*)", l)
        if m: opts.setdefault(m.group(1), {}).update(json.loads(m.group(2)))
        m = re.match(r"//\s*@defs\s+(.*)", l)
        if m: defs += m.group(1).split()
    return srcs, opts, defs

if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    args = sys.argv[1:]
    verbose = "-v" in args
    args = [a for a in args if not a.startswith("-")]
    path = os.path.abspath(args[0])
    srcs, opts, defs = header(path)
    t = time.time()
    ll = build.build_module(path, srcs, tuple(defs))
    m = ir.parse_module(open(ll).read())
    print("built %.1fs" % (time.time() - t), ll)
    hs = args[1:] or sorted(f for f in m.funcs if f.startswith("H_"))
    for h in hs:
        t = time.time()
        o = dict(opts.get("*", {})); o.update(opts.get(h, {}))
        o["verbose"] = verbose
        e = ex.Engine(m, o)
        e.entry = h
        e.run(h)
        st = {}
        for ob in e.obls: st[ob.status] = st.get(ob.status, 0) + 1
        print("%s: %.1fs paths=%d steps=%d ended=%s obls=%s covers=%s queries=%d/%.1fs" % (h, time.time() - t, e.paths, e.steps, e.ended, st, e.covers, solve.STATS["queries"], solve.STATS["time"]))
        seen = set()
        for ob in e.obls:
            if ob.status != "proved" and ob.label not in seen:
                seen.add(ob.label)
                print("  %s %s [%s] at %s inputs=%s\n%s" % (ob.status, ob.label, ob.method, ob.loc, ob.inputs, ob.detail[:3000]))
        us = {}
        for u, w in e.unsupported: us.setdefault(u, []).append(w)
        for u, w in list(us.items())[:8]: print("  UNSUPPORTED x%d %s\n     %s" % (len(w), u, w[0][:1500]))
