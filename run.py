#!/usr/bin/env python3
"""Checks one property:  run.py <ID> [--tier quick|thorough] [--part NAME] [--update-expect]
   Replays a violation:  run.py --replay <file>

Each property has one or more harnesses harness/<ID>*.cc.  A harness and the
current /repo sources are compiled to LLVM IR, linked, and executed
symbolically by engine/ (see DESIGN.md).  Assertion failures are replayed on a
native build of the same harness and sources before they are reported."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time, math, shutil

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("SV_REPO", "/repo")
B = os.path.join(V, "build")
H = os.path.join(V, "harness")
NCPU = os.cpu_count() or 4
INC = ["-I" + H] + ["-I%s/src/%s" % (R, d) for d in
       ("mesh", "geometry", "error_handling", "mesh/mesh_simple", "mesh/mesh_factory", "statemanager")] + \
      ["-I/usr/include/trilinos", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include"]
DEF = ["-std=c++11", "-DNDEBUG", "-DJali_HAVE_METIS", "-DJali_HAVE_ZOLTAN", "-DOMPI_SKIP_MPICXX", "-w"]
BC = ["clang++-18", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
      "-fno-math-errno", "-fno-pic", "-fno-pie", "-emit-llvm", "-c"]
NAT = ["g++", "-O1", "-g", "-ffp-contract=off", "-fsanitize=address", "-fno-omit-frame-pointer", "-c"]
GROUPS = {
    "err": ["src/error_handling/*.cc"],
    "geom": ["src/geometry/*.cc"],
    "block": ["src/mesh/block_partition.cc"],
    "mesh": ["src/mesh/*.cc", "src/mesh/mesh_simple/*.cc"],
    "factory": ["src/mesh/mesh_factory/*.cc"],
    "state": ["src/statemanager/*.cc"],
}

def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def repo_hash():
    fs = []
    for d, dn, fn in os.walk(R + "/src"):
        if "/test" in d: continue
        fs += [os.path.join(d, f) for f in fn if f.endswith((".cc", ".hh", ".h", ".cpp", ".hpp"))]
    return filehash(fs)

def compile_one(src, kind, flags, key):
    out = os.path.join(B, kind, hashlib.sha256((src + kind + " ".join(flags) + key).encode()).hexdigest()[:24] + (".bc" if kind == "bc" else ".o"))
    if os.path.exists(out): return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh((BC if kind == "bc" else NAT) + DEF + INC + flags + [src, "-o", tmp])
    if r.returncode: return None, "compiling %s (%s):\n%s" % (src, kind, r.stdout[-3000:])
    os.replace(tmp, out)
    return out, None

def build_engine():
    srcs = [V + "/engine/" + f for f in ("engine.cc", "interp.inc", "fp.cc", "fp.h")]
    out = os.path.join(B, "sve-" + filehash(srcs)[:16])
    if os.path.exists(out): return out
    cpp = sh(["llvm-config-18", "--cppflags"]).stdout.split()
    t = out + ".%d" % os.getpid()
    ps = [subprocess.Popen(["g++", "-std=c++17", "-O2", "-w", "-fexceptions"] + cpp + ["-c", V + "/engine/" + f, "-o", t + f + ".o"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for f in ("engine.cc", "fp.cc")]
    for p in ps:
        o, _ = p.communicate()
        if p.returncode: die("building the engine failed\n" + o[-3000:])
    r = sh(["g++", "-rdynamic", t + "engine.cc.o", t + "fp.cc.o", "-o", t, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lgmpxx", "-lgmp", "-ldl"])
    if r.returncode: die("linking the engine failed\n" + r.stdout[-3000:])
    os.replace(t, out)
    for f in ("engine.cc", "fp.cc"): os.remove(t + f + ".o")
    return out

def directives(path):
    d = {}
    for l in open(path):
        m = re.match(r"//@\s*(\w+):\s*(.*)", l)
        if m: d[m.group(1)] = (d.get(m.group(1), "") + " " + m.group(2)).strip()
    return d

class Part:
    pass

def parts_of(prop, only=None):
    ps = []
    for f in sorted(glob.glob(H + "/%s*.cc" % prop)):
        n = os.path.basename(f)[:-3]
        if not re.fullmatch(prop + r"(_\w+)?", n): continue
        if only and n != only: continue
        p = Part(); p.name = n; p.src = f; p.d = directives(f)
        ps.append(p)
    return ps

def prepare(parts, tier):
    """compile everything needed, in parallel; fills p.bc and p.exe"""
    for k in ("bc", "nat", "run"): os.makedirs(os.path.join(B, k), exist_ok=True)
    rk = repo_hash()
    hk = filehash(glob.glob(H + "/*.h") + glob.glob(H + "/*.hh"))
    jobs = {}
    ex = cf.ThreadPoolExecutor(NCPU)
    eng = ex.submit(build_engine)
    for p in parts:
        flags = p.d.get("flags", "").split() + p.d.get(tier, "").split()
        srcs = []
        for g in p.d["sources"].split():
            if g in GROUPS:
                for pat in GROUPS[g]: srcs += sorted(glob.glob(os.path.join(R, pat)))
            else: srcs.append(os.path.join(R, g))
        p.repo_srcs = srcs
        own = [p.src] + [os.path.join(H, x) for x in p.d.get("with", "stubs.cc").split()]
        p.units = {"bc": [], "nat": []}
        extra = p.d.get("repoflags", "").split()
        for s in srcs:
            for k in ("bc", "nat"): p.units[k].append((s, k, tuple(extra), rk))
        for s in own:
            key = rk + hk + filehash([s])
            for k in ("bc", "nat"): p.units[k].append((s, k, tuple(flags + extra), key))
        p.units["bc"].append((H + "/rt.cc", "bc", (), filehash([H + "/rt.cc"])))
        p.units["nat"].append((H + "/sv_native.cc", "nat", (), hk + filehash([H + "/sv_native.cc"])))
        for k in ("bc", "nat"):
            for u in p.units[k]:
                if u not in jobs: jobs[u] = None
    order = sorted(jobs, key=lambda u: -os.path.getsize(u[0]))
    futs = {u: ex.submit(compile_one, u[0], u[1], list(u[2]), u[3]) for u in order}
    engine = eng.result()
    for u, f in futs.items():
        o, e = f.result()
        if e: die(e)
        jobs[u] = o
    for p in parts:
        p.bc = os.path.join(B, "run", p.name + "-%d.bc" % os.getpid())
        r = sh(["llvm-link-18"] + [jobs[u] for u in p.units["bc"]] + ["-o", p.bc])
        if r.returncode: die("llvm-link: " + r.stdout[-2000:])
        p.exe = os.path.join(B, "run", p.name + "-%d" % os.getpid())
        r = sh(["g++", "-fsanitize=address"] + [jobs[u] for u in p.units["nat"]] + ["-o", p.exe])
        if r.returncode: die("native link: " + r.stdout[-2000:])
    return engine

def native(exe, lines, timeout=10):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0")
    try:
        r = subprocess.run([exe, str(timeout)], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, env=env, timeout=timeout * len(lines) + 60)
    except subprocess.TimeoutExpired:
        return None
    runs, cur = [], None
    for l in r.stdout.split("\n"):
        if l.startswith("RUN "): cur = []; runs.append(cur)
        elif cur is not None and l: cur.append(l)
    return runs

def confirmed(v, out):
    if v["kind"] == "check":
        return any(l.startswith("CHECK-FAILED " + v["label"]) for l in out)
    if v["kind"] == "steps":
        return any(l in ("CRASH signal 14", "CRASH signal 11", "CRASH exit 66") for l in out)
    return any(l.startswith("CRASH") for l in out)

def known_findings(prop):
    k = []
    fn = os.path.join(V, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) label=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: k.append((m.group(2), m.group(3)))
    return k

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None; upd = False; replay = None; prop = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--part": only = a.pop(0)
        elif x == "--update-expect": upd = True
        elif x == "--replay": replay = a.pop(0)
        elif x == "--setup":
            os.makedirs(B, exist_ok=True); build_engine(); print("engine built"); return 0
        else: prop = x
    t0 = time.time()
    if replay:
        j = json.load(open(replay))
        ps = parts_of(j["property"], j["part"])
        prepare(ps, j["tier"])
        os.environ["SV_KEEP_STDERR"] = "1"
        r = subprocess.run([ps[0].exe], input=j["input"] + "\n", text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        os.remove(ps[0].exe); os.remove(ps[0].bc)
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    parts = parts_of(prop, only)
    if not parts: die("no harness for " + prop)
    engine = prepare(parts, tier)
    tbuild = time.time() - t0
    limit = 780 if tier == "quick" else 3 * 3600
    errors, viols, known_hit = [], [], []
    known = known_findings(prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": [], "wall_s": 0, "violations": 0}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "bounds": {}, "paths": 0, "queries": 0,
           "solver_verdicts": {"sat": 0, "unsat": 0, "unknown": 0}, "assertions_checked": 0, "assertions_decided_by_solver": 0,
           "solver_s": 0.0, "instructions_executed": 0, "functions_encoded": [], "build_s": round(tbuild, 1), "per_part": {}, "covered": {}}
    fns = set()
    for p in parts:
        left = limit - (time.time() - t0)
        out = p.bc + ".json"
        cmd = [engine, p.bc, "--out", out, "--jobs", str(NCPU), "--timeout", "%d" % max(10, left), "--sample-every", p.d.get("sample_every", "97")]
        for k in known: cmd += ["--known", k[0]]
        cmd += p.d.get("engine", "").split() + p.d.get("engine_" + tier, "").split()
        try:
            pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try: pr.wait(timeout=left + 30)
            except subprocess.TimeoutExpired:
                try: os.killpg(pr.pid, 9)
                except OSError: pass
                pr.wait()
                raise
            j = json.load(open(out), strict=False)
        except Exception as e:
            errors.append("%s: engine: %s" % (p.name, e)); continue
        finally:
            for f in (p.bc, out):
                if os.path.exists(f): os.remove(f)
        if j["engine_errors"]: errors.append("%s: %s" % (p.name, j["engine_error"]))
        if j["unknown"]: errors.append("%s: %d solver queries were not decided" % (p.name, j["unknown"]))
        reached = set(j["cover"])
        cov["paths"] += j["paths"]; cov["states"] += j["paths"] + j["forks"]; cov["transitions"] += j["instructions"]
        cov["queries"] += j["queries"]; cov["solver_s"] += j["solver_s"]; cov["instructions_executed"] += j["instructions"]
        for k in ("sat", "unsat", "unknown"): cov["solver_verdicts"][k] += j[k]
        cov["assertions_checked"] += j["checks"]; cov["assertions_decided_by_solver"] += j["checks_by_solver"]
        fns |= set(j["functions"])
        cov["bounds"][p.name] = p.d.get("bounds", "") + (" | " + p.d.get("bounds_" + tier) if p.d.get("bounds_" + tier) else "")
        cov["per_part"][p.name] = {"paths": j["paths"], "queries": j["queries"], "solver_s": j["solver_s"], "wall_s": j["wall_s"], "violations": j["violations_total"]}
        cov["covered"].update({p.name + "/" + k: v for k, v in j["cover"].items()})
        # violations: replay on the real code
        vlabels = set()
        if j["violations"]:
            runs = native(p.exe, [v["model"] for v in j["violations"]])
            for i, v in enumerate(j["violations"]):
                vlabels.add(v["label"])
                ok = runs is not None and i < len(runs) and confirmed(v, runs[i])
                kf = [k for k in known if k[0] == v["label"]]
                if kf:
                    if ok and v["label"] not in [x[0] for x in known_hit]: known_hit.append(kf[0])
                    continue
                if ok: viols.append((p, v, runs[i]))
                else: errors.append("%s: violation of %s found by the solver was not reproduced natively (input %s)\n%s\n%s" % (p.name, v["label"], v["model"], v["detail"], "\n".join(runs[i] if runs and i < len(runs) else ["no run"])[:1500]))
        # validate sampled paths against the native build
        samples = j["samples"]
        if samples:
            runs = native(p.exe, [s["model"] for s in samples])
            if runs is None or len(runs) != len(samples): errors.append("%s: native validation run failed" % p.name)
            else:
                for s, o in zip(samples, runs):
                    bad = compare(s, o, vlabels)
                    if bad: errors.append("%s: engine and native run disagree on %s: %s" % (p.name, s["model"], bad))
                    else: cov["traces_validated_against_impl"] += 1
                for s in samples[:3]: cov["samples"].append({"part": p.name, "input": s["model"][:600], "observations": s["nobs"], "first": s["obs"][:300]})
        if viols: break
        exp = os.path.join(H, "expect", "%s.%s" % (p.name, tier))
        if not upd and not os.path.exists(exp): exp = os.path.join(H, "expect", "%s.quick" % p.name)  # deeper bounds reach at least as much
        want = set(open(exp).read().split("\n")) - {""} if os.path.exists(exp) else set()
        if upd:
            os.makedirs(os.path.dirname(exp), exist_ok=True)
            open(exp, "w").write("\n".join(sorted(reached)) + "\n")
        else:
            if not want: errors.append("%s: no expected coverage recorded" % p.name)
            miss = want - reached
            if miss and not viols: errors.append("%s: never reached: %s" % (p.name, ", ".join(sorted(miss)[:10])))
        if os.environ.get("SV_VERBOSE"):
            print(p.name, json.dumps(cov["per_part"][p.name]), "checks", j["checks"], "samples", len(samples), flush=True)
    for p in parts:
        for f in (p.exe, p.bc):
            if os.path.exists(f) and not os.environ.get("SV_KEEP"): os.remove(f)
    cov["functions_encoded"] = sorted(fns)
    ev["assumptions"] = [p.d["assumes"] for p in parts if "assumes" in p.d]
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = len(viols)
    if errors: ev["coverage"]["errors"] = [e[:2000] for e in errors]
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for lab, txt in known_hit: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, txt, lab))
    seen = set()
    os.makedirs(V + "/replays", exist_ok=True)
    for p, v, o in viols:
        if (p.name, v["label"]) in seen: continue
        seen.add((p.name, v["label"]))
        rp = V + "/replays/%s-%d.json" % (prop, len(seen))
        json.dump({"property": prop, "part": p.name, "tier": tier, "label": v["label"], "kind": v["kind"], "input": v["model"], "where": v["detail"], "native_output": o[-40:]}, open(rp, "w"), indent=1)
        print("  %s %s: %s" % (p.name, v["kind"], v["label"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    for e in errors[:6]: print("CHECK-ERROR: " + e[:2500])
    if viols: return 1
    if errors: return 2
    print("OK property=%s paths=%d assertions=%d queries=%d solver=%.1fs traces=%d wall=%.1fs" %
          (prop, cov["paths"], cov["assertions_checked"], cov["queries"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0

def compare(s, out, vlabels):
    want = [l for l in s["obs"].split("\n") if l]
    got = [l for l in out if l.startswith("OBS ")]
    if len(got) < len(want): return "native run made %d of %d observations; %s" % (len(got), len(want), out[-3:])
    for w, g in zip(want, got):
        w = w.split(" "); g = g.split(" ")[1:]
        if w[0] != g[0] or w[1] != g[1]: return "observation %s vs %s" % (w, g)
        if w[1] == "i":
            if w[2] != g[2]: return "%s: %s vs native %s" % (w[0], w[2], g[2])
        else:
            x, y, e = float(w[2]), float(g[2]), float(w[3])
            if math.isnan(x) and math.isnan(y): continue
            if x == y: continue
            if not abs(x - y) <= e + abs(x) * 1e-15: return "%s: %r vs native %r (bound %g)" % (w[0], x, y, e)
    if not any(l == "END" for l in out): return "native run did not finish: %s" % out[-3:]
    for l in out:
        if l.startswith("CHECK-FAILED"):
            lab = l.split(" ")[1]
            if lab not in vlabels: return "native run fails check %s" % lab
    return None

sys.exit(main())
