"""Runs one property check: symbolic execution of the current sources, native
replay of every counterexample and of sampled paths, evidence, exit status."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B
from .specs import SPECS, INTERNAL_LABEL
from .props import PROPS
TEXT = {p["id"]: p for p in PROPS}

ROOT = B.ROOT
EVD = os.environ.get("SX_EVIDENCE", os.path.join(ROOT, "evidence"))

def known_findings():
    """lines: 'known: property=<id> key=<text that identifies the failing input or site> -- <what fails>'"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] -- (.*)", l.strip())
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, h in inputs:
            f.write("%s %s\n" % (n.replace(' ', '_'), h))

def native_run(exe, inputs, params, preempt, obs, timeout=60, atomics=False):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("SX_PARAM_"):
            del env[k]
    env.update({"SX_INPUTS": inputs, "SX_OBS": obs, "SX_PREEMPT": str(preempt),
                "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=1:handle_abort=1:exitcode=86:allocator_may_return_null=1:symbolize=1",
                "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=5",
                "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else ""})
    if not env["ASAN_SYMBOLIZER_PATH"]:
        del env["ASAN_SYMBOLIZER_PATH"]
    env.pop("SX_ATOMICS", None)
    if atomics:
        env["SX_ATOMICS"] = "1"
    for k, v in params.items():
        env["SX_PARAM_" + k] = str(v)
    if os.path.exists(obs):
        os.unlink(obs)
    try:
        p = subprocess.run([exe], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(obs))
        rc, err = p.returncode, p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", (e.stderr or b"").decode("latin-1")
    o, end = [], ""
    if os.path.exists(obs):
        for l in open(obs, errors="replace"):
            if l.startswith("OBS "):
                f = l.rstrip("\n").split(" ")
                o.append([f[1], f[2] if len(f) > 2 else ""])
            elif l.startswith("END "):
                end = l[4:].strip()
    return rc, end, o, err

NOT_CONFIRMING = ("SX-DONE", "SX-UNUSED-INPUTS", "SX-PAST-END", "SX-INPUT-MISMATCH", "SX-ASSUME-FALSE", "SX-INTERNAL")

def confirm(rc, end):
    if any(end.startswith(x) for x in NOT_CONFIRMING):
        return False
    return rc != 0

class HarnessRun:
    def __init__(self, prop, i, h, tier, deadline):
        self.prop, self.i, self.h, self.tier, self.deadline = prop, i, h, tier, deadline
        self.v = B.Variant(**h.get("variant", {}))
        self.params = dict(h.get("params", {}))
        self.params.update(h.get(tier, {}))
        self.preempt = self.params.pop("_preempt", h.get("preempt", 2))
        self.maxsteps = self.params.pop("_maxsteps", h.get("maxsteps", 6000000))
        self.dir = os.path.join(B.BUILD, "run-%s-%d-%s" % (prop, i, tier))
        self.defs = h.get("defs", [])
        self.natives = {}
        self.atomics = bool(h.get("atomics"))
        self.san = "tsan" if self.atomics else "asan"
    def build(self):
        self.bc = B.harness_ir(self.h["src"], self.v, self.defs)
    def native(self, san):
        if san not in self.natives:
            self.natives[san] = B.harness_native(self.h["src"], self.v, san, self.defs)
        return self.natives[san]
    def explore(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        cmd = [B.engine(), self.bc, "--out", self.dir, "--deadline", str(int(self.deadline)), "--max-steps", str(self.maxsteps),
               "--jobs", str(self.h.get("jobs", B.JOBS)), "--preempt", str(self.preempt), "--samples", str(self.h.get("samples", 24)),
               "--repo", B.REPO.rstrip("/") + "/"]
        if self.atomics:
            cmd.append("--atomics")
        if not self.h.get("race", True):
            cmd.append("--no-race")
        for k, v in self.params.items():
            cmd += ["-D", "%s=%s" % (k, v)]
        t = time.time()
        if os.environ.get("SX_DEBUG"): print(" ".join(cmd))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=self.deadline + 120)
        self.wall = time.time() - t
        if p.returncode:
            raise B.BuildError("engine failed (%s): %s" % (p.returncode, p.stdout[-3000:]))
        self.summary = json.load(open(self.dir + "/summary.json"))
        self.viol, self.paths, self.reach, self.unsup = {}, [], {}, {}
        for f in sorted(glob.glob(self.dir + "/w*.jsonl")):
            for l in open(f, errors="replace"):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r["t"] == "violation":
                    self.viol.setdefault(re.sub(r"\d+ bytes", "", r["msg"]) + "|" + r["site"], []).append(r)
                elif r["t"] == "path":
                    self.paths.append(r)
                elif r["t"] == "reach":
                    self.reach[r["label"]] = self.reach.get(r["label"], 0) + r["n"]
                elif r["t"] == "unsupported":
                    self.unsup[r["what"]] = self.unsup.get(r["what"], 0) + r["n"]
    def replay(self, rec, san, name, timeout=60):
        inp = os.path.join(self.dir, name + ".in")
        write_inputs(inp, rec["inputs"])
        return native_run(self.native(san), inp, self.params, self.preempt, os.path.join(self.dir, name + ".obs"), timeout, self.atomics)

def replay_violation(hr, rec, n):
    race = "data race" in rec["msg"]
    san = "tsan" if race else hr.san
    rc, end, obs, err = hr.replay(rec, san, "viol%d" % n, timeout=20 if "hang" in rec["msg"] else 60)
    if race:
        ok = "ThreadSanitizer" in err and not any(end.startswith(x) for x in ("SX-INPUT-MISMATCH", "SX-PAST-END", "SX-INTERNAL"))
    else:
        ok = confirm(rc, end)
    first = ""
    for l in err.splitlines():
        if "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l or "runtime error" in l or "SX-" in l or "terminate called" in l or "what()" in l:
            first = l.strip()
            break
    return ok, rc, end, first, err

def run_check(prop, tier, seed=1, total=None):
    t0 = time.time()
    spec = SPECS[prop]
    runs = []
    budget = total or (spec.get("budget_quick", 240) if tier == "quick" else spec.get("budget_thorough", 780))
    hs = spec["harnesses"]
    weights = [h.get("weight", 1.0) for h in hs]
    B.prune()
    B.prepare([(h['src'], B.Variant(**h.get('variant', {})), h.get('defs', []), "tsan" if h.get("atomics") else "asan") for h in hs])
    for i, h in enumerate(hs):
        hr = HarnessRun(prop, i, h, tier, 1)
        hr.build()
        hr.native(hr.san)
        runs.append(hr)
    build_s = time.time() - t0
    left = max(60, budget - 0.25 * build_s)
    kf = [k for k in known_findings() if k["property"] == prop]
    reported, knowns, unconfirmed, notes, validated, mism = [], [], [], [], 0, []
    tv = time.time()
    wsum = sum(weights)
    for hr, w in zip(runs, weights):
        hr.deadline = max(10, left * w / wsum)
        hr.explore()
        left -= min(hr.wall, left)
        wsum -= w
        # sampled completed paths: the real program must behave as the engine said
        sample = hr.paths[:: max(1, len(hr.paths) // 48)][:64]
        def one(a):
            k, r = a
            return r, hr.replay(r, hr.san, "path%d" % k)
        with ThreadPoolExecutor(B.JOBS) as ex:
            for r, (rc, end, obs, err) in ex.map(one, enumerate(sample)):
                if rc == 0 and end.startswith("SX-DONE") and obs == r["obs"]:
                    validated += 1
                else:
                    mism.append({"harness": hr.h["src"], "rc": rc, "end": end, "inputs": r["inputs"], "engine_obs": r["obs"], "native_obs": obs, "stderr": err[-1500:]})
        # counterexamples
        items = sorted(hr.viol.items())
        vn = 0
        for key, recs in items:
            ok = False
            for rec in recs[:4]:
                vn += 1
                ok, rc, end, first, err = replay_violation(hr, rec, vn)
                if ok:
                    break
            ent = {"harness": hr.h["src"], "variant": hr.v.name, "defs": hr.defs, "params": hr.params, "preempt": hr.preempt, "atomics": hr.atomics, "msg": rec["msg"], "site": rec["site"],
                   "stack": rec["stack"], "inputs": rec["inputs"], "native": {"rc": rc, "end": end, "report": first}, "native_stderr": err[-6000:]}
            if not ok:
                # what the standard library leaves open (hash values, say) may differ natively:
                # the same assertion may fail for another path's input
                want = "SX-ASSERT-FAILED " + rec["msg"][len("assert: "):]
                if rec["msg"].startswith("assert: "):
                    alt = next((m for m in mism if m["harness"] == hr.h["src"] and m["end"] == want), None)
                    if not alt:
                        more = hr.paths[1:: max(1, len(hr.paths) // 300)][:320]
                        with ThreadPoolExecutor(B.JOBS) as ex:
                            for r, (rc, end, obs, err) in ex.map(one, enumerate(more)):
                                if end == want and not alt:
                                    alt = {"rc": rc, "end": end, "inputs": r["inputs"], "stderr": err}
                    if alt:
                        ok = True
                        ent.update(inputs=alt["inputs"], native={"rc": alt["rc"], "end": alt["end"], "report": ""}, native_stderr=alt["stderr"][-6000:])
            if not ok:
                unconfirmed.append(ent)
                continue
            k = next((k for k in kf if k["key"] in rec["msg"] or k["key"] in rec["msg"] + " @ " + rec["site"]), None)
            if k:
                knowns.append((k, ent))
            else:
                reported.append(ent)
    # vacuity
    reach_missing = []
    for hr in runs:
        for l in hr.h.get("reach", []):
            if not hr.reach.get(l):
                reach_missing.append("%s:%s" % (hr.h["src"], l))
    S = lambda k: sum(hr.summary.get(k, 0) for hr in runs)
    complete = all(hr.summary["dropped"] == 0 and hr.summary["undecided"] == 0 and hr.summary["paths_unsupported"] == 0 and not hr.summary.get("stopped") for hr in runs)
    cov_files = {}
    for hr in runs:
        for f, (a, b) in hr.summary.get("files", {}).items():
            o = cov_files.get(f, [0, b])
            cov_files[f] = [max(o[0], a), max(o[1], b)]
    funcs = sorted(set(x for hr in runs for x in hr.summary.get("functions", [])))
    rd = os.path.join(EVD, "replays")
    os.makedirs(rd, exist_ok=True)
    for f in glob.glob(os.path.join(rd, prop + "-*.json")):
        os.unlink(f)
    samples = []
    for hr in runs:
        for r in hr.paths[:3]:
            samples.append({"harness": hr.h["src"], "inputs": r["inputs"], "observations": r["obs"], "instructions": r["steps"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"),
            "transitions": S("symbolic_branches") + S("schedule_points"),
            "traces_validated_against_impl": validated,
            "samples": samples[:8],
            "exhaustive": complete and not reach_missing,
            "explanation": "states = symbolic paths (each stands for every input/schedule satisfying its path condition); transitions = symbolic branch and schedule decisions made by the solver; traces_validated = sampled paths whose concrete instance was replayed on the sanitizer build of the same sources with identical observations",
            "bounds": TEXT.get(prop, {}).get("bounds", ""),
            "outside_bounds": TEXT.get(prop, {}).get("outside", ""),
            "harnesses": [{"source": hr.h["src"], "configuration": hr.v.name, "params": hr.params, "preemption_bound": hr.preempt, "atomic_operations_are_scheduling_points": hr.atomics, "max_instructions_per_path": hr.maxsteps,
                           "paths": hr.summary["paths"], "completed": hr.summary["paths_completed"], "cut_by_assumption": hr.summary["paths_assume"],
                           "violating": hr.summary["paths_violating"], "not_encodable": hr.summary["paths_unsupported"], "not_finished": hr.summary["dropped"],
                           "undecided_branches": hr.summary["undecided"], "instructions": hr.summary["instructions"], "forks": hr.summary["forks"],
                           "schedule_points": hr.summary["schedule_points"], "longest_path_instructions": hr.summary["max_path_instructions"],
                           "solver_queries": hr.summary["queries"], "solver_cache_hits": hr.summary["cache_hits"], "sat": hr.summary["sat"], "unsat": hr.summary["unsat"],
                           "unknown": hr.summary["unknown"], "solver_s": hr.summary["solver_s"], "wall_s": hr.summary["wall_s"],
                           "not_encodable_reasons": dict(sorted(hr.unsup.items(), key=lambda x: -x[1])[:10]), "reached": hr.reach} for hr in runs],
            "solver_queries": S("queries"), "solver_s": round(S("solver_s"), 3),
            "functions_encoded": funcs, "function_count": len(funcs),
            "lines_encoded_by_file": {f: "%d/%d" % (a, b) for f, (a, b) in sorted(cov_files.items())},
            "unconfirmed_counterexamples": len(unconfirmed),
            "replay_mismatches": len(mism),
            "known_findings_seen": len(knowns),
            "missing_reach_labels": reach_missing,
            "build_s": round(build_s, 1),
        },
        "assumptions": TEXT.get(prop, {}).get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(reported),
    }
    os.makedirs(EVD, exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, prop + ".json"), "w"), indent=1)
    if mism or unconfirmed:
        json.dump({"mismatches": mism[:20], "unconfirmed": unconfirmed[:20]}, open(os.path.join(rd, prop + "-diagnostics.json"), "w"), indent=1)
    print("%s %s: %d paths (%d completed), %d queries, solver %.1f s, %d traces validated, exhaustive=%s, wall %.1f s" % (
        prop, tier, S("paths"), S("paths_completed"), S("queries"), S("solver_s"), validated, ev["coverage"]["exhaustive"], ev["wall_s"]))
    for hr in runs:
        for w, n in sorted(hr.unsup.items(), key=lambda x: -x[1])[:5]:
            print("  not encodable (%d paths): %s" % (n, w))
        if hr.summary["dropped"]:
            print("  %s: %d paths not finished within the time bound" % (hr.h["src"], hr.summary["dropped"]))
    for m in mism[:3]:
        print("  replay mismatch: %s rc=%s end=%s" % (m["harness"], m["rc"], m["end"]))
    for u in unconfirmed[:5]:
        print("  counterexample not reproduced natively, not reported: %s at %s (native: %s %s)" % (u["msg"], u["site"], u["native"]["rc"], u["native"]["end"]))
    for l in reach_missing:
        print("  WARNING: label not reached: %s" % l)
    seen = set()
    for k, ent in knowns:
        if k["key"] not in seen:
            seen.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, ent in enumerate(reported):
        f = os.path.join(rd, "%s-%d.json" % (prop, n))
        json.dump(ent, open(f, "w"), indent=1)
        if n >= 10:
            continue
        print("  %s | %s | native: %s" % (ent["msg"], ent["site"], ent["native"]["report"] or ent["native"]["end"] or ent["native"]["rc"]))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    sys.stdout.flush()
    return 1 if reported else 0

def replay_file(f):
    ent = json.load(open(f))
    m = re.match(r"f(\d)t(\d)n(\d)(d0)?(c1)?", ent["variant"])
    v = B.Variant(*map(int, m.groups()[:3]), debug=0 if m.group(4) else 1, compat=1 if m.group(5) else 0)
    san = "tsan" if "data race" in ent["msg"] or ent.get("atomics") else "asan"
    exe = B.harness_native(ent["harness"], v, san, ent["defs"])
    d = os.path.join(B.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    write_inputs(d + "/in", ent["inputs"])
    rc, end, obs, err = native_run(exe, d + "/in", ent["params"], ent["preempt"], d + "/obs", atomics=ent.get("atomics", False))
    print("inputs:", ent["inputs"])
    print("expected:", ent["msg"])
    print("native exit:", rc, end)
    print(err[-4000:])
    return 1 if (confirm(rc, end) or "ThreadSanitizer" in err) else 0
