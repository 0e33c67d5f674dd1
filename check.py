"""check.py ID: decide one property on /repo's current tree (see DESIGN.md, "The runner")."""
import sys, os, json, time, subprocess, hashlib, fcntl, multiprocessing as mp, glob, shutil
D = os.path.dirname(os.path.abspath(__file__)); C = D + "/.cache"; sys.path.insert(0, D + "/engine"); sys.setrecursionlimit(20000)
REPO = "/repo"; T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1); TIER = os.environ.get("VERIF_TIER", "quick")
def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, D + "/replay", D + "/roots", D + "/mirdump"):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules", ".cache"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".sh")):
                    p = os.path.join(d, f); h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(D + "/dump.sh", "rb").read()); return h.hexdigest()
def sh(cmd, log, env=None):
    with open(log, "w") as f: return subprocess.Popen(["bash", "-c", cmd], stdout=f, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL)
def forget(t):   # our own crates are rebuilt whatever the time stamps say
    for c in ("bdk_sp-", "dleq-", "indexer-", "bdk_sp_oracles-", "replay-", "roots-"):
        for p in glob.glob(f"{C}/{t}/debug/.fingerprint/{c}*"): shutil.rmtree(p, ignore_errors=True)
def build():
    """the monomorphised MIR and the replay harness of the current tree"""
    os.makedirs(C, exist_ok=True); lock = open(C + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash(); stamp = C + "/stamp.json"; mir = C + "/mir.json"; rep = C + "/rt/debug/replay"
    try: old = json.load(open(stamp))
    except Exception: old = {}
    if old.get("hash") == h and os.path.exists(rep) and (os.path.exists(mir) or not old.get("mir")): return old
    for p in (stamp, mir): 
        if os.path.exists(p): os.remove(p)
    forget("rt"); forget("mirt"); t = time.time()
    a = sh(f"{{ [ -x {C}/mirdump ] && [ {C}/mirdump -nt {D}/mirdump/main.rs ] || sh {D}/mirdump/build.sh; }} && bash {D}/dump.sh {mir} psbt_sp_spend", C + "/dump.log")
    b = sh(f"bash {D}/replay/build.sh", C + "/replay.log")
    ra, rb = a.wait(), b.wait()
    r = {"hash": h, "mir": ra == 0 and os.path.exists(mir), "replay": rb == 0 and os.path.exists(rep), "build_s": round(time.time() - t, 1)}
    if r["replay"]: json.dump(r, open(stamp, "w"))
    return r
def harness(pid, seed, tier, hints=(), limit=700):
    out = f"{C}/out-{pid}-{os.getpid()}-{seed}.json"
    if os.path.exists(out): os.remove(out)
    env = dict(os.environ, REPLAY_HINTS=",".join(map(str, hints)))
    try: r = subprocess.run([C + "/rt/debug/replay", pid, str(seed), tier, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired: return {"failing_input": f"the harness did not terminate within {limit} s (seed {seed})", "evaluations": 0, "iterations": 0, "reached": {}, "hang": True}
    if os.path.exists(out):
        j = json.load(open(out)); os.remove(out); return j
    if r.returncode < 0: return {"failing_input": f"the harness was ended by signal {-r.returncode} on seed {seed}: {r.stderr.decode()[-400:]}", "evaluations": 0, "iterations": 0, "reached": {}}
    return None
_prog = None
def _run(a):
    name, budget, scale, seed = a
    import verify, specs, exec as X
    X.RSCALE = scale; X.RSEED = seed
    sp = verify.SPECS[name]; r = verify.run_spec(_prog, sp, budget=budget)
    ob = [{"name": o.name, "kind": o.kind, "result": getattr(o, "res", "open"), "time": round(getattr(o, "time", 0), 3)} for o in r.obls]
    hints = set(); ex = []
    for o in r.obls:
        if getattr(o, "res", "") == "refuted":
            m = getattr(o, "model", None); txt = ""
            if m is not None:
                txt = str(m)[:3000]
                for d in m.decls():
                    try:
                        v = m[d]
                        for c in ([v] if d.arity() == 0 else [e.value() for e in v.as_list()[:-1]] + [x for e in v.as_list()[:-1] for x in [e.arg_value(i) for i in range(e.num_args())]] + [v.else_value()]):
                            if hasattr(c, "as_long") and 0 <= c.as_long() < 2**64: hints.add(c.as_long())
                    except Exception: pass
            ex.append({"obligation": o.name, "goal": str(o.goal)[:1500], "model": txt})
    return {"name": name, "target": sp.target or "(lemma over the contracts)", "status": r.status, "reason": r.reason, "obls": ob, "used": {k: (sorted(v) if isinstance(v, set) else v) for k, v in r.used.items()}, "wall": r.wall, "nq": r.nq, "tq": r.tq, "paths": r.info.get("paths"), "havocs": r.info.get("havocs", 0), "hints": sorted(hints)[:40], "refuted": ex[:6]}
def verify_all(names, budget, scale=1.0, seed=0, stop=lambda: False):
    """every contract in a process of its own; once stop() holds (a failing input is known), the rest is left undecided after a short grace"""
    global _prog
    if not names: return []
    import verify, specs
    from mir import Prog
    _prog = Prog(C + "/mir.json")
    none = lambda n, why: {"name": n, "target": n, "status": "unsupported", "reason": why[:200], "obls": [], "used": {}, "wall": budget, "nq": 0, "tq": 0, "havocs": 0, "hints": [], "refuted": []}
    with mp.Pool(min(7, len(names)), maxtasksperchild=1) as p:
        rs = {n: p.apply_async(_run, ((n, budget, scale, seed),)) for n in names}; out = {}; t0 = time.time(); seen = None
        while len(out) < len(rs):
            for n, r in rs.items():
                if n not in out and r.ready():
                    try: out[n] = r.get()
                    except Exception as e: out[n] = none(n, f"{type(e).__name__} {e}")
            if seen is None and stop(): seen = time.time()
            if seen is not None and time.time() - seen > 45: [out.setdefault(n, none(n, "not attempted to the end: a failing input was already found")) for n in rs]
            if time.time() - t0 > (budget + 90) * (1 + len(names) // 7): [out.setdefault(n, none(n, "out of time")) for n in rs]
            time.sleep(0.05)
        p.terminate()
    return [out[n] for n in names]
def known(pid):
    try: return [l.split(" ", 2) for l in open(D + "/known-findings.txt").read().splitlines() if l.startswith("KNOWN-FINDING: property=" + pid + " ")]
    except FileNotFoundError: return []
def main(pid):
    from props import PROPS, PROOF, NOREPLAY, LEVEL_TXT
    names = PROPS.get(pid, []); thorough = TIER == "thorough"
    b = build()
    if not b["mir"] and not b["replay"]:
        print("the crates of /repo do not build; see", C + "/replay.log"); return 2
    hz = None; procs = []
    use_replay = pid not in NOREPLAY
    if use_replay and not b["replay"]: print("the replay harness does not build:", open(C + "/replay.log").read()[-1500:]); return 2
    # the harness runs beside the verifier
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(7); runs = []
    if use_replay: runs = [pool.submit(harness, pid, SEED, "thorough" if thorough else "deep")] + [pool.submit(harness, pid, SEED * 7919 + i, "quick") for i in range(1, 3)]
    asm = pool.submit(harness, "ASSUME", SEED, "thorough" if thorough else "quick") if b["replay"] else None   # samples the assumed contracts of the dependencies
    if use_replay and thorough: runs += [pool.submit(harness, pid, SEED * 7919 + i, "thorough") for i in range(1, 4)]
    found = lambda: any(r.done() and (r.result() or {}).get("failing_input") for r in runs)
    specs_r = verify_all(names, 780 if thorough else 240, stop=found) if b["mir"] else [{"name": n, "target": n, "status": "unsupported", "reason": "the dump of the current tree failed", "obls": [], "used": {}, "wall": 0, "nq": 0, "tq": 0, "havocs": 0, "hints": [], "refuted": []} for n in names]
    # a second attempt with more resources before an obligation counts as failed
    again = [s["name"] for s in specs_r if s["status"] in ("refuted", "unknown")]
    if again and time.time() - T0 < 340 and not found():
        new = {s["name"]: s for s in verify_all(again, 240, 3.0, 7, found)}; specs_r = [new.get(s["name"], s) if new.get(s["name"], s)["status"] in ("proved", "refuted", "unknown") else s for s in specs_r]
    hs = [r.result() for r in runs]; hs = [h for h in hs if h]
    fails = [h for h in hs if h.get("failing_input")]
    bad = [s for s in specs_r if s["status"] != "proved"]; refuted = [s for s in bad if s["status"] == "refuted"]
    if use_replay and not fails and bad and time.time() - T0 < 500:
        hints = sorted({h for s in bad for h in s["hints"]})
        more = [pool.submit(harness, pid, SEED + 1000 + i, "deep", hints if i % 2 == 0 else (), 200) for i in range(6)]
        hs2 = [m.result() for m in more]; hs += [h for h in hs2 if h]; fails = [h for h in hs2 if h and h.get("failing_input")]
    # an obligation generated from the current code that the verifier does not accept is a violation even without a
    # concrete input; code it cannot generate obligations for ("unsupported") is left to the bounded replay and never claimed proved
    hard = [s for s in bad if s["status"] in ("refuted", "unknown")]
    viol = None
    os.makedirs(D + "/evidence", exist_ok=True); rp = f"{D}/evidence/replay-{pid}.txt"
    if fails or hard:
        with open(rp, "w") as f:
            for s in refuted:
                for x in s["refuted"]: f.write(f"failed obligation: {x['obligation']}\n  function: {s['target']}\n  goal: {x['goal']}\n  verifier's model: {x['model']}\n")
            for s in bad:
                if s not in refuted: f.write(f"undischarged: contract {s['name']} ({s['target']}): {s['status']} {s['reason']} {[o['name'] for o in s['obls'] if o['result'] != 'proved'][:8]}\n")
            for h in fails: f.write(f"failing input on the real code: {h['failing_input']}\n  reproduce: .cache/rt/debug/replay {pid} {h.get('seed', SEED)} {h.get('tier', 'quick')} /dev/stdout\n")
            if not fails: f.write("no failing input was found by replaying\n")
        viol = f"VIOLATION property={pid} replay={rp}" + ("" if fails else " no-failing-input-found")
    nob = sum(len(s["obls"]) for s in specs_r); nd = sum(1 for s in specs_r for o in s["obls"] if o["result"] == "proved")
    allp = bool(names) and not bad
    models = sorted({m for s in specs_r for m in s["used"].get("models", [])}); contracts = sorted({m for s in specs_r for m in s["used"].get("contracts", [])}); inl = sorted({m for s in specs_r for m in s["used"].get("inlined", [])})
    ev = sum(h["evaluations"] for h in hs)
    a = asm.result() if asm else None
    if a and a.get("failing_input"): print("note: an assumed contract of a dependency does not hold:", a["failing_input"][:600])   # says something about the assumptions, not about /repo
    level = "proof" if pid in PROOF and allp and not (a and a.get("failing_input")) else "exploration"
    import z3
    cov = {"functions_under_contract": [{"contract": s["name"], "function": s["target"], "status": s["status"], "reason": s["reason"], "obligations": len(s["obls"]), "discharged": sum(o["result"] == "proved" for o in s["obls"]), "paths": s.get("paths"), "loops_cut": s["havocs"], "solver_queries": s["nq"], "solver_s": round(s["tq"], 2), "wall_s": round(s["wall"], 2)} for s in specs_r],
           "obligations": nob, "discharged": nd, "undischarged": [o["name"] for s in specs_r for o in s["obls"] if o["result"] != "proved"][:40], "back_end": "z3 " + z3.get_version_string(), "solver_s": round(sum(s["tq"] for s in specs_r), 2),
           "checker_cmd": f"python3-vt {D}/check.py {pid}", "inlined_bodies": inl, "callee_contracts": contracts, "trusted_base": ["rustc nightly MIR construction and monomorphisation (mir-opt-level 0)", "mirdump, the engine's MIR semantics and z3"] + ["assumed contract: " + m for m in models],
           "bounded_replay": {"label": "bounded, not counted as proved", "evaluations": ev, "iterations": sum(h["iterations"] for h in hs), "reached": hs[0]["reached"] if hs else {}, "seeds": [h.get("seed") for h in hs]}}
    if a: cov["assumed_contracts_sampled"] = {"label": "bounded", "evaluations": a["evaluations"], "reached": a["reached"], "failing_input": a.get("failing_input")}
    if level == "exploration":
        cov.update(evaluations=ev, distinct_nontrivial=sum(h.get("distinct", 0) for h in hs), rule="inputs generated per iteration of the seed from the property's case classes; an input counts when at least one postcondition was evaluated on it and its description is new", samples=[x for h in hs for x in h.get("samples", [])][:3])
    e = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": level, "coverage": cov, "assumptions": ["hash outputs and their sums are valid non-zero scalars where the code expects it (stated in the code as computationally unreachable)", "contracts assumed for dependency functions are listed in trusted_base", "allocation succeeds; termination is not proved"], "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    json.dump(e, open(f"{D}/evidence/{pid}.json", "w"), indent=1)
    for k in known(pid): print(" ".join(k))
    for s in specs_r: print(f"{s['status']:12s} {s['name']} ({len(s['obls'])} obligations, {s['wall']:.1f} s) {s['reason']}")
    print(f"replay: {ev} evaluations; {time.time() - T0:.1f} s")
    if viol: print(viol); return 1
    return 0
if __name__ == "__main__": sys.stdout.flush(); r = main(sys.argv[1]); sys.stdout.flush(); os._exit(r)
