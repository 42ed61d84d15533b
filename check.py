#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only ENTRY]

Decides one property: compiles harness/<PROPERTY>*.cpp against /repo's current headers to LLVM IR,
links the environment models, symbolically executes every entry with build/sx (z3), and replays every
satisfying assignment against the natively compiled real code.  Only a natively reproduced failure is
reported as VIOLATION."""
import sys, os, re, json, subprocess, time, random, glob, hashlib, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CXX = "clang++-18"
COMMON = ["-std=c++14", "-w", "-include", "cstdint", "-DBOOST_UBLAS_NDEBUG", "-I" + ROOT + "/harness", "-I" + REPO + "/include"]
SYM = COMMON + ["-O1", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-DBOOST_LEXICAL_CAST_ASSUME_C_LOCALE", "-I" + ROOT + "/models/include", "-emit-llvm", "-c"]
NAT = COMMON + ["-O1", "-g0", "-fsanitize=address", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-rdynamic"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["make", "-s", "-j4", "-C", ROOT + "/engine", "OUT=" + BUILD])
        if r.returncode: print(r.stdout); sys.exit(2)
        m = BUILD + "/models.bc"
        srcs = [ROOT + "/models/models.cpp", ROOT + "/models/models_c.c"] + glob.glob(ROOT + "/models/include/*")
        if not os.path.exists(m) or any(os.path.getmtime(s) > os.path.getmtime(m) for s in srcs):
            for c in ([CXX, *SYM, "-fno-builtin", ROOT + "/models/models.cpp", "-o", BUILD + "/m1.bc"],
                      ["clang-18", "-O1", "-w", "-fno-builtin", "-emit-llvm", "-c", ROOT + "/models/models_c.c", "-o", BUILD + "/m2.bc"],
                      ["llvm-link-18", BUILD + "/m1.bc", BUILD + "/m2.bc", "-o", m]):
                r = run(c)
                if r.returncode: print(r.stdout); sys.exit(2)

def parse_harness(path, tier):
    """entries: VF_HARNESS(name), options in '// @entry name k=v ...' lines; '// @bounds', '// @assume' notes"""
    txt = open(path).read()
    opts = {}
    for m in re.finditer(r"^// @entry (\w+)(.*)$", txt, re.M):
        opts[m.group(1)] = dict(re.findall(r"(\w+)=(\S+)", m.group(2)))
    ents = []
    for n in re.findall(r"^VF_HARNESS\((\w+)\)", txt, re.M):
        o = opts.get(n, {})
        if o.get("tier") == "thorough" and tier != "thorough": continue
        ents.append((n, o))
    notes = {k: [x.strip() for x in re.findall(r"^// @" + k + r" (.*)$", txt, re.M)] for k in ("bounds", "assume", "outside")}
    return ents, notes

def write_inputs(path, ins):
    with open(path, "w") as f:
        for k, v in ins.items():
            f.write("%s\t%s\n" % (k, ("%.17g" % v) if isinstance(v, float) else v))

def replay(binp, entry, ins, wd, tag, timeout=60):
    p = os.path.join(wd, "in_%s.txt" % tag); write_inputs(p, ins)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=255", VF_SCRATCH=wd)
    try:
        r = subprocess.run([binp, entry, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "timeout", "", p
    out = r.stdout + r.stderr
    if r.returncode == 0: return "ok", out, p
    if r.returncode == 77: return "assume", out, p
    if r.returncode == 3 or "VF-FAIL" in r.stdout: return "fail", out, p
    if r.returncode == 99 or r.returncode < 0: return "crash", out, p
    return "error", out, p

def variants(ins, rng, ranges, n):
    """candidate concrete inputs for a solver model: the model itself, the angle-derived values, and perturbations"""
    keys = [k for k, v in ins.items() if isinstance(v, list)]
    yield {k: (v[0] if isinstance(v, list) else v) for k, v in ins.items()}
    if keys: yield {k: (v[-1] if isinstance(v, list) else v) for k, v in ins.items()}
    reals = [k for k, v in ins.items() if k in ranges]
    for i in range(n):
        d = {k: (v[-1] if isinstance(v, list) else v) for k, v in ins.items()}
        for k in reals:
            lo, hi = ranges[k]
            t = rng.random()
            if t < 0.15: continue
            d[k] = rng.choice([lo, hi, 0.0, 1.0, -1.0]) if t < 0.25 else rng.uniform(lo, hi) if (hi - lo) < 1e4 or t < 0.5 else rng.uniform(max(lo, -100), min(hi, 100))
            d[k] = min(hi, max(lo, d[k]))
        yield d

def main():
    a = sys.argv[1:]
    if a == ["--setup"]: build_engine(); print("ready"); return
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); rng = random.Random(seed)
    t0 = time.time(); build_engine()
    wd = os.path.join(BUILD, "run_%s_%d" % (prop, os.getpid())); os.makedirs(wd, exist_ok=True)
    files = sorted(glob.glob(ROOT + "/harness/%s*.cpp" % prop))
    if not files: print("no harness for", prop); sys.exit(2)
    known = load_known(prop)
    budget = {"quick": float(os.environ.get("VERIF_BUDGET", "400")), "thorough": 3000.0}[tier]
    ex = ThreadPoolExecutor(JOBS); jobs = []; notes = {"bounds": [], "assume": [], "outside": []}; natf = {}; bcs = {}
    def comp_sym(f):
        b = os.path.join(wd, os.path.basename(f)[:-4])
        sym = [x for x in SYM if not (x.endswith("/models/include") and "\n// @nostreams" in open(f).read())]   # harnesses that need no stream model use the real <sstream>
        if "\n// @calendar" in open(f).read(): sym = sym[:1] + ["-I" + ROOT + "/models/calendar"] + sym[1:]   # model of Boost.DateTime's day number -> year, month, day
        r = run([CXX, *sym, *tflag, f, "-o", b + ".h.bc"])
        if r.returncode:   # the string stream model does not fit the code: use the real one, paths through it stay undecided (and are reported as cut)
            r = run([CXX, *sym, "-DVF_REAL_SSTREAM", *tflag, f, "-o", b + ".h.bc"])
        if r.returncode: return None, r.stdout
        r = run(["llvm-link-18", b + ".h.bc", BUILD + "/models.bc", "-o", b + ".bc"])
        return (b + ".bc", "") if not r.returncode else (None, r.stdout)
    def comp_nat(f):
        b = os.path.join(wd, os.path.basename(f)[:-4])
        r = run([CXX, *NAT, *tflag, f, ROOT + "/harness/vf_native.cpp", "-ldl", "-o", b + ".nat"])
        return (b + ".nat", "") if not r.returncode else (None, r.stdout)
    tflag = ["-DVF_THOROUGH=1"] if tier == "thorough" else []
    fs = {f: ex.submit(comp_sym, f) for f in files}; fn = {f: ex.submit(comp_nat, f) for f in files}
    def sx(bc, f, name, o):
        outp = os.path.join(wd, name + ".json")
        tl = float(o.get("time", 150)); 
        if tier == "thorough": tl = float(o.get("ttime", tl * 6))
        cmd = [BUILD + "/sx", bc, "--entry", name, "--out", outp, "--time", str(tl), "--assert-ms", o.get("assert_ms", "20000"), "--branch-ms", o.get("branch_ms", "3000")]
        if "steps" in o: cmd += ["--steps", o["steps"]]
        if o.get("termination"): cmd += ["--steps-violation"]
        try: r = run(cmd, timeout=tl + 120)
        except subprocess.TimeoutExpired: return f, name, o, None, "engine timeout"
        try: return f, name, o, json.load(open(outp)), ""
        except Exception as e: return f, name, o, None, r.stdout[-2000:]
    for f in files:
        bc, err = fs[f].result()
        if not bc: print("harness does not compile:", f, "\n", err[-3000:]); shutil.rmtree(wd, ignore_errors=True); sys.exit(2)
        ents, nt = parse_harness(f, tier)
        for k in notes: notes[k] += nt[k]
        for n, o in ents:
            if only and n != only: continue
            jobs.append(ex.submit(sx, bc, f, n, o))
    results = [j.result() for j in jobs]
    # ---- judge
    ewall = {}; violations, unconfirmed, errors, knownhits, validated, disagreements = [], [], [], [], 0, 0
    tot = dict(paths=0, cut=0, pending=0, forks=0, steps=0, queries=0, real_queries=0, solver_s=0.0, unknown_branches=0, domain=0); funcs = set(); obl = {}; cuts = {}; samples = []; missing_reach = []; timeouts = []; unknown_obl = []
    rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(rdir + "/%s_*" % prop): os.unlink(old)
    def keep(entry, cid, ins, out, binp):
        h = hashlib.sha1(json.dumps([entry, cid, ins], sort_keys=True).encode()).hexdigest()[:8]
        p = os.path.join(rdir, "%s_%s_%s.json" % (prop, entry, h))
        json.dump({"property": prop, "entry": entry, "assertion": cid, "inputs": ins, "native_output": out[-3000:], "how": "compile harness/%s*.cpp + harness/vf_native.cpp natively against /repo/include and run: <binary> %s <file with one 'name<TAB>value' line per input>" % (prop, entry)}, open(p, "w"), indent=1)
        return p
    def fails_of(out):
        return [m.group(1) for m in re.finditer(r"VF-FAIL (\S+)", out)]
    def report(name, cid, ins, out, binp):
        for k in known:
            if k["entry"] == name and k["assertion"] == cid:
                if (name, cid) not in [(x[0], x[1]) for x in knownhits]: knownhits.append((name, cid, k["text"]))
                return
        violations.append((name, cid, keep(name, cid, ins, out, binp)))
    for f, name, o, r, err in results:
        if r is None: errors.append((name, err)); continue
        for k, j in (("paths", "paths"), ("cut", "paths_cut"), ("pending", "paths_pending"), ("forks", "forks"), ("steps", "steps"), ("queries", "queries"), ("real_queries", "real_queries"), ("solver_s", "solver_s"), ("unknown_branches", "unknown_branches"), ("domain", "domain_conditions")): tot[k] += r[j]
        ewall[name] = round(r["wall_s"], 1); funcs |= set(r["functions"])
        for k, b in r["obligations"].items(): obl[name + "/" + k] = b
        for k, b in r["cuts"].items(): cuts[name + ": " + k] = b
        if r["timeout"]: timeouts.append(name)
        want = [x for x in o.get("reach", "").split(",") if x]
        for w in want:
            if not r["reach"].get(w): missing_reach.append(name + "/" + w)
        if not r["reach"] and not want: missing_reach.append(name + "/<none>")
        binp, nerr = fn[f].result()
        if not binp:
            errors.append((name, "native build failed: " + nerr[-1500:])); continue
        ranges = {k: tuple(v) for k, v in r.get("ranges", {}).items()}
        # validate the encoding: replay reachability witnesses natively
        for i, s in enumerate(r["samples"][:4]):
            ins = {k: (v[-1] if isinstance(v, list) else v) for k, v in s["inputs"].items()}
            st, out, p = replay(binp, name, ins, wd, name + "_s%d" % i)
            if st in ("ok", "fail") and ("VF-REACH " + s["reach"]) in out: validated += 1
            elif not ranges: disagreements += 1
            if len(samples) < 8: samples.append({"entry": name, "reach": s["reach"], "inputs": dict(list(ins.items())[:40]), "native": st})
            if st == "fail":
                ids = fails_of(out)
                if ids and not any(re.match(r"uncaught|terminate", x) and 0 for x in ids): report(name, ids[0], ins, out, binp)
        seen = set()
        for c in r["cex"]:
            if (c["id"]) in seen: continue
            ok = False
            for i, ins in enumerate(variants(c["inputs"], rng, ranges, 40 if ranges else 0)):
                st, out, p = replay(binp, name, ins, wd, "%s_c%d" % (name, i), timeout=20 if c["id"] == "termination" else 60)
                if st == "crash" or (st == "timeout" and c["id"] == "termination") or (st == "fail" and fails_of(out)):
                    cid = (fails_of(out) + [c["id"]])[0] if st == "fail" else c["id"]
                    report(name, cid, ins, out if st != "timeout" else "native run did not terminate within 20 s", binp); ok = True; seen.add(c["id"]); break
            if not ok: unconfirmed.append({"entry": name, "id": c["id"], "detail": c["detail"], "stack": c["stack"][:200], "inputs": dict(list(c["inputs"].items())[:40])})
        # obligations the solver could not settle: look for a concrete witness, never report without one
        unk = [k for k, b in r["obligations"].items() if b["unknown"]]
        for k in unk: unknown_obl.append(name + "/" + k)
        if unk and ranges and not any(v[0] == name for v in violations):
            base = dict(r["samples"][-1]["inputs"]) if r["samples"] else {}
            for k in ranges: base.setdefault(k, 0.0)
            for i, ins in enumerate(variants(base, rng, ranges, 60)):
                st, out, p = replay(binp, name, ins, wd, "%s_u%d" % (name, i))
                if st == "fail" and fails_of(out): report(name, fails_of(out)[0], ins, out, binp); break
    ex.shutdown()
    n_obl = sum(b["checked"] for b in obl.values()); n_prov = sum(b["proved"] for b in obl.values()); n_fold = sum(b["folded"] for b in obl.values())
    complete = not timeouts and not tot["cut"] and not tot["pending"]
    cov = {"states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples or [{"note": "no sample"}],
           "explanation": "symbolic execution of the real headers (LLVM IR from /repo's working tree); states = symbolic paths completed, transitions = IR instructions executed symbolically",
           "entries": ewall, "functions_encoded": sorted(re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", q)[:220] for q in funcs),
           "bounds": notes["bounds"], "outside_bounds": notes["outside"], "solver": "z3 5.3 (cvc5 fallback)", "solver_queries": tot["queries"], "nonlinear_real_queries": tot["real_queries"], "solver_time_s": round(tot["solver_s"], 2),
           "obligations_checked": n_obl, "obligations_proved": n_prov, "of_which_constant_folded": n_fold, "obligations_unknown": unknown_obl, "per_obligation": obl, "forks": tot["forks"], "paths_cut": tot["cut"], "paths_pending_at_timeout": tot["pending"], "timeouts": timeouts, "cut_reasons": cuts, "unknown_branches": tot["unknown_branches"], "real_domain_side_conditions": tot["domain"],
           "missing_witnesses": missing_reach, "unconfirmed_counterexamples": unconfirmed, "encoding_disagreements": disagreements, "engine_errors": errors, "complete_within_bounds": complete, "known_findings_hit": [list(x) for x in knownhits]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": notes["assume"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(ROOT + "/evidence", exist_ok=True); json.dump(ev, open(ROOT + "/evidence/%s.json" % prop, "w"), indent=1)
    shutil.rmtree(wd, ignore_errors=True)
    print("%s [%s]: %d entries, %d paths, %d obligations (%d proved, %d unknown), %d queries, solver %.1f s, wall %.1f s%s" % (prop, tier, len(results), tot["paths"], n_obl, n_prov, len(unknown_obl), tot["queries"], tot["solver_s"], time.time() - t0, "" if complete else " [incomplete: cut=%d pending=%d timeouts=%s]" % (tot["cut"], tot["pending"], timeouts)))
    print("  slowest:", ", ".join("%s %.1fs" % x for x in sorted(ewall.items(), key=lambda x: -x[1])[:6]))
    for k, v in sorted(cuts.items()): print("  cut:", k[:200], v)
    for m in missing_reach: print("  no witness:", m)
    for u in unconfirmed: print("  unconfirmed:", u["entry"], u["id"], u["detail"], json.dumps(u["inputs"])[:400], u["stack"][:160])
    for u in unknown_obl: print("  solver unknown:", u)
    for n, e in errors: print("  error:", n, e)
    for n, cid, t in knownhits: print("KNOWN-FINDING: property=%s %s/%s %s" % (prop, n, cid, t))
    for n, cid, p in violations: print("  violated: %s/%s" % (n, cid))
    for n, cid, p in violations: print("VIOLATION property=%s replay=%s" % (prop, p))
    if violations: sys.exit(1)
    if errors and len(errors) == len(results): sys.exit(2)
    sys.exit(0)

def load_known(prop):
    out = []
    p = ROOT + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) assertion=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append({"entry": m.group(2), "assertion": m.group(3), "text": m.group(4)})
    return out

if __name__ == "__main__": main()
