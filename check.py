#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   (see DESIGN.md)

1. compiles /repo's current sources and the contract file(s) to LLVM IR, generates the
   verification conditions of every contract and discharges them;
2. runs the native companion (the same postconditions evaluated on the real code);
3. a refuted obligation is replayed / searched natively for a failing input.
"""
import glob
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(200000)
from irvc import build, ir, props  # noqa: E402

REPO = build.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def contract_header(path):
    srcs, opts, defs = [], {}, []
    for l in open(path):
        m = re.match(r"//\s*@sources\s+(.*)", l)
        if m:
            srcs += m.group(1).split()
        m = re.match(r"//\s*@opts\s+(\S+)\s+(.*)", l)
        if m:
            opts.setdefault(m.group(1), {}).update(json.loads(m.group(2)))
        m = re.match(r"//\s*@defs\s+(.*)", l)
        if m:
            defs += m.group(1).split()
    return srcs, opts, defs


# ------------------------------------------------------------------ symbolic part
def run_harness(module, h, opts, tier, q):
    from irvc import exec as ex, solve
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    res = {}

    def body():
        t = time.time()
        o = dict(opts.get("*", {}))
        o.update(opts.get(h, {}))
        o.setdefault("timeout", 420)
        if tier == "thorough":
            o["timeout"] = max(o["timeout"], 1500)
            o["dump"] = True
        e = ex.Engine(module, o)
        e.entry = h
        try:
            e.run(h)
        except MemoryError:
            e.unsupported.append(("memory limit", ""))
        except Exception as x:  # engine failure: undecided, never an alarm
            import traceback
            e.unsupported.append(("engine: %s" % x, traceback.format_exc()[-1500:]))
        ob = {}
        fails = []
        for x in e.obls:
            k = (x.label, x.status, x.method)
            d = ob.setdefault(k, [0, 0.0])
            d[0] += 1
            d[1] += x.time
            if x.status != "proved":
                fails.append(dict(label=x.label, status=x.status, method=x.method, loc=x.loc, detail=x.detail, inputs=x.inputs))
        repo_fns = {}
        for f, c in e.funcs_executed.items():
            loc = fn_file(module, f)
            if loc and loc.startswith(REPO):
                repo_fns[e.dm.get(f, f)] = loc[len(REPO) + 1:]
        under = {}
        for r, c in e.replaced_used.items():
            under[e.dm.get(r, r)] = c
        res.update(harness=h, obls=[(k[0], k[1], k[2], v[0], v[1]) for k, v in ob.items()], fails=fails,
                   unsupported=[(a, b) for a, b in e.unsupported][:40], nunsupported=len(e.unsupported), covers=e.covers,
                   paths=e.paths, steps=e.steps, ended=e.ended, wall=time.time() - t, solver=dict(solve.STATS),
                   fns=repo_fns, contracts_used=under, externals=sorted(e.dm.get(x, x) for x in e.externals_used),
                   assumes=e.assumes, bounded=sorted(e.bounded_reasons), trusted=sorted(e.trusted),
                   ideal=sorted(e.ideal_consts), dump=getattr(e, "dumped", []))
    th = threading.Thread(target=body)
    th.start()
    th.join()
    q.send(res)
    q.close()


_spc = {}


def fn_file(m, name):
    f = m.funcs.get(name)
    if f is None or not f.sp:
        return None
    s = m.md.get(f.sp, "")
    fl = re.search(r'file: !(\d+)', s)
    ff = m.md.get(fl.group(1), "") if fl else ""
    a = re.search(r'filename: "([^"]*)"', ff)
    d = re.search(r'directory: "([^"]*)"', ff)
    if not a:
        return None
    p = a.group(1)
    if not p.startswith("/") and d:
        p = os.path.join(d.group(1), p)
    return os.path.normpath(p)


def symbolic(prop, tier, out, nproc):
    jobs = []
    for c in prop.get("contracts", []):
        path = os.path.join(VERIF, "contracts", c)
        srcs, opts, defs = contract_header(path)
        t = time.time()
        try:
            ll = build.build_module(path, srcs, tuple(defs))
            m = ir.parse_module(open(ll).read())
        except (build.BuildError, subprocess.TimeoutExpired, OSError) as e:
            out["undecided"].append("%s: contract does not compile against the current tree: %s" % (c, str(e)[-1500:]))
            continue
        except Exception as e:
            out["undecided"].append("%s: IR reader: %s" % (c, e))
            continue
        out["compile_s"] = out.get("compile_s", 0) + time.time() - t
        hs = sorted(f for f in m.funcs if f.startswith("H_"))
        only = prop.get("harnesses", {}).get(c)
        if only:
            hs = [h for h in hs if h in only]
        for h in hs:
            if opts.get(h, {}).get("tier") == "thorough" and tier != "thorough":
                continue
            jobs.append((opts.get(h, {}).get("cost", 1), c, m, h, opts))
    jobs.sort(key=lambda j: -j[0])
    ctx = mp.get_context("fork")
    running = []
    jobs = jobs[::-1]
    while jobs or running:
        while jobs and len(running) < nproc:
            _, c, m, h, opts = jobs.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_harness, args=(m, h, opts, tier, b))
            p.start()
            b.close()
            running.append((p, a, c, h, time.time(), opts))
        for r in list(running):
            p, a, c, h, t, opts = r
            lim = max(opts.get(h, {}).get("timeout", opts.get("*", {}).get("timeout", 420)), 1500 if tier == "thorough" else 0) + 60
            if a.poll(0.05):
                try:
                    x = a.recv()
                    x["contract"] = c
                    out["harnesses"].append(x)
                except EOFError:
                    out["undecided"].append("%s %s: verifier process died" % (c, h))
                p.join()
                running.remove(r)
            elif not p.is_alive():
                out["undecided"].append("%s %s: verifier process died" % (c, h))
                running.remove(r)
            elif time.time() - t > lim:
                p.kill()
                out["undecided"].append("%s %s: time limit" % (c, h))
                running.remove(r)


# ------------------------------------------------------------------ native part
def native_sources(libs):
    r = []
    for l in libs:
        if l.endswith(".cpp"):
            r.append(os.path.join(REPO, "src", l))
        else:
            r += sorted(glob.glob(os.path.join(REPO, "src", l, "**", "*.cpp"), recursive=True))
    return r


NFLAGS = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-access-control", "-w", "-DSPDLOG_DISABLE"]


def build_native(driver, libs, tag, extra=(), defs=(), nproc=8):
    import hashlib
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(build.CACHE, exist_ok=True)
    flags = NFLAGS + build.INC + ["-I" + os.path.join(VERIF, "native")] + list(extra) + list(defs)
    srcs = native_sources(libs) + [driver]
    if tag == "replay":
        srcs.append(os.path.join(VERIF, "native", "vp_native.cpp"))
    nat = ""
    for f in sorted(glob.glob(os.path.join(VERIF, "native", "*.hpp"))):
        nat += open(f).read()

    def comp(s):
        k = hashlib.sha256((open(s).read() + build.th() + (nat if s.startswith(VERIF) else "") + repr((s, flags))).encode()).hexdigest()[:24]
        o = os.path.join(build.CACHE, os.path.basename(s) + "-" + k + ".o")
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            build.run(["g++"] + flags + ["-c", s, "-o", t])
            os.replace(t, o)
        return o
    with ThreadPoolExecutor(nproc) as ex:
        objs = list(ex.map(comp, srcs))
    exe = os.path.join(build.CACHE, "%s-%s-%d" % (tag, os.path.basename(driver).replace(".cpp", ""), os.getpid()))
    build.run(["g++", "-rdynamic"] + list(extra) + objs + ["-o", exe, "-ldl", "-lpthread"])
    return exe


def run_native(exe, seed, secs, case=None):
    cmd = [exe, str(seed), str(secs)] + ([str(case)] if case is not None else [])
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=23:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 4 + 240, env=env, errors="replace")
        return dict(rc=p.returncode, out=p.stdout[-4000:], err=p.stderr[-6000:], cmd=cmd)
    except subprocess.TimeoutExpired as e:
        return dict(rc=None, out=((e.stdout or b"")[-2000:]).decode("latin1") if isinstance(e.stdout, bytes) else str(e.stdout)[-2000:], err="timeout", cmd=cmd)


def native(prop, tier, out, nproc):
    if not prop.get("native"):
        return
    t = time.time()
    drivers = prop["native"] if isinstance(prop["native"], list) else [prop["native"]]
    secs = prop.get("secs", 10) if tier == "quick" else prop.get("tsecs", 120)
    for d in drivers:
        extra = prop.get("nflags", [])
        try:
            exe = build_native(os.path.join(VERIF, "native", d), prop.get("libs", []), "drv", extra, prop.get("ndefs", []), nproc)
        except (build.BuildError, subprocess.TimeoutExpired) as e:
            out["native"].append(dict(driver=d, error="native driver does not build: " + str(e)[-2500:]))
            continue
        out["native_build_s"] = time.time() - t
        out["exes"].append(exe)
        n = prop.get("njobs", 2)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda i: run_native(exe, SEED * 1000 + i, secs), range(n)))
        for r in rs:
            r["driver"] = d
            out["native"].append(r)


def nfail(r):
    """does this native run witness a failure of the real code?"""
    if r.get("error"):
        return None
    if "FAIL" in (r.get("out") or ""):
        return [l for l in r["out"].split("\n") if "FAIL" in l][0]
    if r["rc"] is None:
        return "the real code does not terminate (native driver timed out)"
    if r["rc"] == 0:
        return None
    if r["rc"] == 23 or "AddressSanitizer" in r.get("err", "") or "runtime error" in r.get("err", ""):
        l = [l for l in r["err"].split("\n") if "ERROR: AddressSanitizer" in l or "runtime error" in l]
        return "sanitizer report: " + (l[0] if l else r["err"][:300])
    if r["rc"] == -9:
        return None  # ended from outside (memory): no verdict
    return "native driver ended with status %s: %s" % (r["rc"], (r.get("err") or "")[-500:])


def replay_models(prop, refuted, out, nproc):
    """replay the verifier's counterexamples through the natively compiled contract"""
    tried = []
    exes = {}
    for f in refuted[:12]:
        c = f["contract"]
        if c not in exes:
            path = os.path.join(VERIF, "contracts", c)
            srcs, _, defs = contract_header(path)
            try:
                exes[c] = build_native(path, [s[4:] for s in srcs if s.startswith("src/")], "replay", (), tuple(defs), nproc)
                out["exes"].append(exes[c])
            except (build.BuildError, subprocess.TimeoutExpired) as e:
                exes[c] = None
                tried.append(dict(contract=c, error=str(e)[-500:]))
        if not exes[c] or not f.get("inputs"):
            continue
        cmd = [exes[c], f["harness"]] + ["%s=%s" % (a, b) for a, b in f["inputs"]]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=60, errors="replace")
            rc, o = p.returncode, p.stdout[-600:]
        except subprocess.TimeoutExpired:
            rc, o = None, "timeout"
        tried.append(dict(harness=f["harness"], inputs=f["inputs"], rc=rc, out=o))
        if rc == 1 and "FAIL" in o or (rc is not None and rc < 0):
            return dict(kind="verifier counterexample replayed on the real code", harness=f["harness"], inputs=f["inputs"],
                        obligation=f["label"], output=o, rc=rc), tried
    return None, tried


def cvc5_recheck(dumps, limit_s, nproc):
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time()
    res = dict(unsat=0, sat=0, unknown=0)

    def one(s):
        if time.time() - t0 > limit_s:
            return None
        try:
            p = subprocess.run(["cvc5", "--tlimit=20000", "--lang=smt2", "-"], input=s, capture_output=True, text=True, timeout=40)
            o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
            return o if o in res else "unknown"
        except Exception:
            return "unknown"
    with ThreadPoolExecutor(nproc) as ex:
        for r in ex.map(one, dumps):
            if r:
                res[r] += 1
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    prop = props.PROPS[pid]
    out = dict(undecided=[], harnesses=[], native=[], exes=[])
    nproc = min(8, os.cpu_count() or 4)
    # symbolic first forks worker processes, so the native thread only drives subprocesses
    th = threading.Thread(target=native, args=(prop, tier, out, max(2, nproc // 2)))
    if prop.get("serial_native", True):
        th.start()
    symbolic(prop, tier, out, nproc)
    th.join()

    obligations = discharged = 0
    methods = {}
    refuted, undecided = [], list(out["undecided"])
    labels = set()
    fns, used, ext, bounded, trusted, ideal = {}, {}, set(), set(), set(), set()
    solver_s = 0.0
    per = []
    dumps = []
    for h in out["harnesses"]:
        if not h.get("harness"):
            continue
        for lab, stt, meth, n, t in h["obls"]:
            obligations += n
            labels.add(lab)
            if stt == "proved":
                discharged += n
                methods[meth] = methods.get(meth, 0) + n
        for f in h["fails"]:
            f["harness"] = h["harness"]
            f["contract"] = h["contract"]
            if f["status"] == "refuted":
                refuted.append(f)
            else:
                undecided.append("%s: %s (%s)" % (h["harness"], f["label"], f["status"]))
        for u, w in h["unsupported"]:
            undecided.append("%s: %s at %s" % (h["harness"], u, w[:300]))
        for k, v in h["covers"].items():
            if v != "reached":
                undecided.append("%s: cover point '%s' not shown reachable (%s)" % (h["harness"], k, v))
        if h["paths"] == 0 or not h["obls"]:
            undecided.append("%s: generated no obligation" % h["harness"])
        fns.update(h["fns"])
        for k, v in h["contracts_used"].items():
            used[k] = used.get(k, 0) + v
        ext.update(h["externals"])
        bounded.update(h["bounded"])
        trusted.update(h["trusted"])
        ideal.update(h["ideal"])
        solver_s += h["solver"]["time"]
        dumps += h.get("dump", [])
        per.append(dict(harness=h["harness"], contract=h["contract"], paths=h["paths"], instructions=h["steps"],
                        obligations=sum(o[3] for o in h["obls"]), proved=sum(o[3] for o in h["obls"] if o[1] == "proved"),
                        wall_s=round(h["wall"], 2), solver_queries=h["solver"]["queries"], bounded=h["bounded"]))
    nfails = [(r, nfail(r)) for r in out["native"]]
    ncases = nchecks = 0
    nsamples = []
    for r in out["native"]:
        m = re.search(r"OK cases=(\d+) checks=(\d+) nontrivial=(\d+) last=\[(.*)\]", r.get("out", "") or "", re.S)
        if m:
            ncases += int(m.group(1))
            nchecks += int(m.group(2))
            nsamples.append(m.group(4)[:300])
    witness = None
    for r, f in nfails:
        if f:
            witness = dict(kind="native run of the real code", driver=r["driver"], failure=f, cmd=r["cmd"], stdout=r.get("out"), stderr=(r.get("err") or "")[-3000:])
            m = re.search(r"case=(\d+) seed=(\d+)", f)
            if m:
                witness["rerun"] = "driver %s, seed %s, case %s" % (r["driver"], m.group(2), m.group(1))
            break
    tried = []
    if refuted and not witness:
        witness, tried = replay_models(prop, refuted, out, nproc)
        if not witness and out["exes"]:
            # extended search with other seeds
            for k in range(3):
                for exe in [x for x in out["exes"] if "/drv-" in x]:
                    r = run_native(exe, SEED * 77777 + k, 15)
                    f = nfail(r)
                    if f:
                        witness = dict(kind="native run of the real code", failure=f, cmd=r["cmd"], stdout=r.get("out"), stderr=(r.get("err") or "")[-3000:])
                        break
                if witness:
                    break
    cvc = None
    if tier == "thorough" and dumps:
        cvc = cvc5_recheck(dumps, 400, nproc)
    for x in out["exes"]:
        try:
            os.unlink(x)
        except OSError:
            pass
    violation = bool(refuted or witness)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    line = None
    if violation:
        rp = os.path.join(VERIF, "evidence", "%s.replay.json" % pid)
        with open(rp, "w") as fh:
            json.dump(dict(property=pid, failed_obligations=refuted[:20], witness=witness, replay_attempts=tried[:20]), fh, indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        if not witness:
            line += " no-failing-input-found"
    nerr = [r["error"] for r in out["native"] if r.get("error")]
    ev = dict(property=pid, tier=tier, seed=SEED, level="proof",
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, tier),
                  trusted_base=["irvc (the VC generator in /verif/irvc: LLVM IR semantics, memory model, term normaliser)",
                                "clang++-18 front end and opt-18 sroa/early-cse/simplifycfg producing the verified IR", "z3 5.3.2"] +
                               ["external function model: " + x for x in sorted(ext)[:60]],
                  back_ends=methods, solver_time_s=round(solver_s, 2), distinct_obligation_labels=len(labels),
                  labels=sorted(labels)[:200],
                  functions_of_the_code_executed_under_contract=len(fns), functions={k: fns[k] for k in sorted(fns)[:400]},
                  calls_replaced_by_contract=used, harnesses=per, undecided=undecided[:60],
                  bounded_parts=sorted(bounded), idealised_tolerances=sorted(ideal)[:20],
                  native=dict(cases=ncases, runtime_contract_checks=nchecks, drivers=prop.get("native"), samples=nsamples[:4], errors=nerr,
                              note="bounded: a search for failing inputs, not counted as proof"),
                  cvc5_recheck=cvc),
              assumptions=["machine doubles are treated as real numbers (rounding ignored); tolerances < 1e-8 are idealised to 0" if ideal or not prop.get("fp") else "",
                           "allocation succeeds; no concurrency"] + sorted(trusted) + list(prop.get("assumptions", [])),
              wall_s=round(time.time() - t0, 2), violations=len(refuted) + (1 if witness and not refuted else 0))
    ev["assumptions"] = [a for a in ev["assumptions"] if a]
    if undecided or nerr:
        ev["coverage"]["note"] = "some obligations are undecided on this tree; they are listed and not counted as discharged"
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s [%s]: %d obligations, %d discharged, %d refuted, %d undecided; native %d cases; %.1fs" %
          (pid, tier, obligations, discharged, len(refuted), len(undecided), ncases, time.time() - t0))
    for u in undecided[:6]:
        print("  undecided:", u[:300].replace("\n", " "))
    for e in nerr:
        print("  native:", e[-600:].replace("\n", " "))
    if violation:
        for f in refuted[:4]:
            print("  refuted: %s [%s] at %s inputs=%s" % (f["label"], f["harness"], f["loc"], f["inputs"]))
        if witness:
            print("  witness:", json.dumps(witness)[:800])
        print(line)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # never end with anything but 0/1
        import traceback
        traceback.print_exc()
        print("check machinery failed: %r (no verdict)" % e)
        os._exit(0)
