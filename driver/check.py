#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]

Discharges the obligations of one property against /repo's current working tree.
exit 0: all obligations discharged; exit 1: VIOLATION line (an obligation fails, or the prover no longer accepts it);
exit 2: /repo cannot be translated.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "ob"))
sys.path.insert(0, os.path.join(VERIF, "driver"))
import build as B
from obligations import OBS, PROPS, DEPTH, ASSUMED, LEVEL, COMMON_TB

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def closure(prop):
    prov = {}
    for o in OBS:
        for f in o.proves:
            prov.setdefault(f, []).append(o)
    todo = [o for o in OBS if prop in o.props]
    seen, elsewhere, d = [], set(), 0
    while todo:
        nxt = []
        for o in todo:
            if o in seen:
                continue
            seen.append(o)
            for f in o.uses:
                if f in ASSUMED:
                    continue
                if f not in prov:
                    raise SystemExit("internal: no obligation proves the contract of %s used by %s" % (f, o.entry))
                if d < DEPTH.get(prop, 99):
                    nxt += prov[f]
                else:
                    elsewhere.add((f, tuple(sorted({p for q in prov[f] for p in q.props}))))
        todo = nxt
        d += 1
    have = {f for o in seen for f in o.proves}
    return seen, sorted("%s (checks %s)" % (f, " ".join(ps)) for f, ps in elsewhere if f not in have)

_sv = {}
def safety_variant(o):
    import copy
    if o not in _sv:
        c = copy.copy(o)
        if not o.cbmc:
            c.flags = o.flags + ["--safety-only"]
            c.safety = True
        _sv[o] = c
    return _sv[o]

_cv = {}
def ct_variant(o):
    """the unit in constant-flow mode: only o.ct are public"""
    import copy
    if o not in _cv:
        c = copy.copy(o)
        c.flags = o.flags + ["--ct", o.ct]
        c.safety = c.noreplay = True
        _cv[o] = c
    return _cv[o]

def ct_obligations():
    return [o for o in OBS if o.ct is not None]

def jobs_of(obs, tier, prop=None):
    if prop == "P19":
        return [(ct_variant(o), cfg, tuple(a)) for o in obs for cfg in o.cfgs for a in (o.args if tier == "quick" else o.targs or o.args)]
    if prop == "P16": # every obligation once more, for safety only
        return [(safety_variant(o), cfg, tuple(a)) for o in obs for cfg in o.cfgs if cfg != "structs" for a in (o.args if tier == "quick" else o.targs or o.args)]
    """own obligations in every build configuration, those behind the contracts they use in the first one"""
    js = []
    for o in obs:
        for cfg in o.cfgs if prop in o.props or tier != "quick" else o.cfgs[:1]:
            for a in (o.args if tier == "quick" else o.targs or o.args):
                js.append((o, cfg, tuple(a)))
    return js

def run_cbmc(job, wd):
    """a unit decided by CBMC on the real sources with contract stubs (no bound: unwinding is asserted)"""
    import re
    o, cfg, args = job
    name = "%s-%s-%s" % (o.entry, cfg, "-".join(map(str, args)))
    t0 = time.time()
    g = os.path.join(wd, name + ".goto")
    cmd = ["cbmc", g, "--trace"] + o.flags
    r = {"name": name, "cmd": " ".join(cmd), "wall": 0.0}
    try:
        B.build_goto(wd, os.path.join(VERIF, "cbmc", o.cbmc[0]), cfg, ["-D%s=%s" % (k, v) for k, v in zip(o.cbmc[2], args)] + o.cbmc_defs, o.cbmc[1], g, args)
        p = subprocess.run(["bash", "-c", "ulimit -v %d; exec \"$@\"" % (o.mem_mb * 1024), "x"] + cmd,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=o.timeout)
        out = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        r.update(status="error", error="timeout after %d s" % o.timeout, wall=time.time() - t0)
        return r
    except B.BuildError as e:
        r.update(status="error", error="goto-cc: %s" % e, wall=time.time() - t0)
        return r
    r["wall"] = r["cbmc_s"] = time.time() - t0
    res = re.findall(r"^\[(\S+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M)
    r["obligations"], r["discharged"] = len(res), sum(x[2] == "SUCCESS" for x in res)
    r["by_cbmc"] = r["discharged"]
    bad = [x for x in res if x[2] == "FAILURE" and ".unwind." not in x[0]]
    if "VERIFICATION SUCCESSFUL" in out and res and r["obligations"] == r["discharged"]:
        r["status"] = "ok"
        r["functions"] = ["%s:%s" % (f, fn) for fn, f in o.cbmc_functions]
    elif bad and not any(".unwind." in x[0] and x[2] != "SUCCESS" for x in res):
        tr = out[out.find("Trace for " + bad[0][0]):][:6000]
        model = {}
        for k in o.cbmc[3]:
            m = re.findall(r"\b%s=(\d+)" % k, tr)
            if m:
                model[k] = int(m[-1])
        r["status"] = "violation"
        r["violations"] = [{"kind": "cbmc", "label": "%s %s" % (x[0], x[1]), "cbmc_model": model, "detail": tr if i == 0 else ""} for i, x in enumerate(bad)]
    else:
        r["status"] = "error"
        r["error"] = "CBMC does not decide (loops outside the contract): " + "; ".join(x[0] for x in res if x[2] != "SUCCESS")[:300] + out[-300:] * (not res)
    return r

def run_job(job, bcs, wd, seed, extra=(), timeout=None, mem=1):
    o, cfg, args = job
    if o.cbmc:
        return run_cbmc(job, wd)
    name = "%s-%s-%s" % (o.entry, cfg, "-".join(map(str, args)))
    out = os.path.join(wd, name + "".join(extra) + ".json")
    cmd = [os.path.join(VERIF, "build", "fve"), bcs[cfg], "--entry", o.entry]
    for a in args:
        cmd += ["--arg", str(a)]
    cmd += ["--out", out] + o.flags + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(["bash", "-c", "ulimit -v %d; exec \"$@\"" % (mem * o.mem_mb * 1024), "x"] + cmd,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or o.timeout)
        try:
            r = json.load(open(out))
        except Exception as e:
            r = {"status": "error", "error": "no result (exit %d): %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:])}
    except subprocess.TimeoutExpired:
        r = {"status": "error", "error": "timeout after %d s" % (timeout or o.timeout)}
    r["wall"] = time.time() - t0
    r["name"] = name
    r["cmd"] = " ".join(cmd)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--no-deps", action="store_true")
    A = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if A.tier == "thorough" else "quick"
    t0 = time.time()
    prop = A.prop
    obs, elsewhere = ([o for o in OBS if not o.lemma], []) if prop == "P16" else (ct_obligations(), []) if prop == "P19" else closure(prop)
    if A.no_deps:
        obs = [o for o in OBS if prop in o.props]
    A.elsewhere = elsewhere
    if A.only:
        obs = [o for o in OBS if o.entry == A.only]
    if not obs:
        print("ERROR no obligations for", prop)
        return 2
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev) and not A.only:
        os.unlink(ev)
    wd = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(VERIF, "work"))
    try:
        return run(A, prop, tier, seed, obs, wd, ev, t0)
    finally:
        if not A.keep:
            shutil.rmtree(wd, ignore_errors=True)

def run(A, prop, tier, seed, obs, wd, ev, t0):
    if subprocess.call([os.path.join(VERIF, "engine", "build.sh")]) != 0:
        print("ERROR the engine does not build")
        return 2
    js = jobs_of(obs, tier, prop)
    cfgs = sorted({c for _, c, _ in js})
    try:
        bcs = B.build_ir(wd, cfgs)
    except B.BuildError as e:
        print("ERROR cannot translate /repo:", e)
        return 2
    for k, m in B.skipped.items():
        log("harness %s does not fit /repo: %s" % (k, m[-400:]))
    tb = time.time() - t0
    js.sort(key=lambda j: -j[0].cost)
    res = {}
    with cf.ThreadPoolExecutor(A.jobs) as ex:
        fut = {ex.submit(run_job, j, bcs, wd, seed): j for j in js}
        for f in cf.as_completed(fut):
            r = f.result()
            res[fut[f]] = r
            log("%-52s %-9s %6.1fs %s" % (r["name"], r["status"], r["wall"], (r.get("error") or r.get("msg") or "")[:300]))
    # a unit that ran out of memory or time next to seven others gets another try on its own
    again = [j for j in js if res[j]["status"] == "error" and re.match("no result|timeout", res[j].get("error", "")) and not j[0].cbmc]
    for j in again[:3]:
        left = (780 if tier == "quick" else 20000) - (time.time() - t0) - 100
        if left > 60:
            res[j] = r = run_job(j, bcs, wd, seed, timeout=min(left, j[0].timeout), mem=2)
            log("%-52s %-9s %6.1fs (second try) %s" % (r["name"], r["status"], r["wall"], (r.get("error") or "")[:300]))
    viol, err = [], []
    n_obl = n_dis = n_nf = n_z3 = n_safe = n_cb = 0
    solver = zs = cbs = 0.0
    funcs, contracts = set(), {}
    for j in js:
        r = res[j]
        if r["status"] == "ok":
            bad = [c for c in r.get("contracts", {}) if c.split(" -> ")[0] not in j[0].uses and c.split(" -> ")[0] not in ASSUMED]
            if bad:
                r["status"] = "error"
                r["error"] = "contracts used but not declared: " + ",".join(bad)
            if prop == "P19":
                bad = [c for c in r.get("contracts", {}) if c.split(" -> ")[0] not in ASSUMED and not any(c.split(" -> ")[0] in o.proves for o in obs)]
                if bad:
                    r["status"] = "error"
                    r["error"] = "called functions whose constant flow is not checked: " + ",".join(bad)
        if prop == "P19":
            r["violations"] = [v for v in r.get("violations") or [] if v["kind"] == "constant flow"]
            if r["status"] == "violation" and not r["violations"]:
                r["status"] = "error"
                r["error"] = "a precondition or safety obligation fails (see P16)"
            r["obligations"] = r["discharged"] = r.get("constant_flow", 0)
            r["by_normal_form"] = r["discharged"] = r["discharged"] - len(r["violations"])
            r["by_z3"] = r["safety"] = 0
        n_obl += r.get("obligations", 0)
        n_dis += r.get("discharged", 0)
        n_nf += r.get("by_normal_form", 0)
        n_z3 += r.get("by_z3", 0)
        n_cb += r.get("by_cbmc", 0)
        cbs += r.get("cbmc_s", 0)
        n_safe += r.get("safety", 0)
        solver += r.get("wall", 0)
        zs += r.get("solver_s", 0)
        funcs.update(r.get("functions", []))
        for k, v in r.get("contracts", {}).items():
            contracts.setdefault(k, 0)
            contracts[k] += v if isinstance(v, int) else 1
        if r["status"] == "violation":
            viol.append(j)
        elif r["status"] != "ok":
            err.append(j)
    lines, vrec = [], []
    if viol or err:
        nat, tried, found = {}, 0, 0
        err.sort(key=lambda j: res[j]["wall"])
        for j in (viol + err):
            o, cfg, args = j
            r = res[j]
            if j in err and found:
                break
            tired = time.time() - t0 > (480 if tier == "quick" else 3600) or tried >= 4
            rep = None if tired else replay(o, cfg, args, r, wd, seed, nat, bcs, t0 + (640 if tier == "quick" else 7200))
            if rep is None and j in err:
                if o.bounded_fallback and r.get("error", "").startswith("CBMC does not decide"):
                    r["status"] = "bounded"
                    r["obligations"] = r["discharged"] = 0
                    log("BOUNDED %s: not decided; %s" % (r["name"], o.bounded_fallback))
                    continue
            found, tried = found + bool(rep), tried + (not rep)
            path = write_replay(prop, o, cfg, args, r, rep)
            what = (r.get("violations") or [{}])[0]
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rep else " no-failing-input-found"))
            vrec.append({"obligation": r["name"], "label": what.get("label", r.get("error") or r.get("msg") or ""), "replay": path, "failing_input": bool(rep)})
            log("%s %s: %s" % ("UNDECIDED" if j in err else "FAILED", r["name"], json.dumps(what)[:800] if what else (r.get("error") or r.get("msg") or "")[:800]))
            if len(lines) >= 4 or time.time() - t0 > 660:
                break
        lines.sort(key=lambda l: l.endswith("found"))
    wall = time.time() - t0
    n_obl = sum(res[j].get("obligations", 0) for j in js)
    n_dis = sum(res[j].get("discharged", 0) for j in js)
    from obligations import assumptions_for
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "proof"),
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": "build/fve <ir of /repo> --entry <harness> (one process per unit; IR regenerated from /repo on this run)",
            "trusted_base": COMMON_TB,
            "units": len(js), "units_ok": sum(res[j]["status"] == "ok" for j in js),
            "by_normal_form": n_nf, "by_solver_z3": n_z3, "by_cbmc": n_cb, "memory_and_arithmetic_safety_obligations": n_safe,
            "functions_under_proof": sorted({os.path.basename(f.split(":")[0]) + ":" + f.split(":")[1] for f in funcs if not f.startswith(VERIF)}),
            "contracts_applied_at_calls": contracts,
            "contracts_proved_by_other_checks": A.elsewhere,
            "prover_wall_s_total": round(solver, 1), "z3_s": round(zs, 2), "cbmc_s": round(cbs, 2),
            "bounded_only": [res[j]["name"] + ": " + j[0].bounded_fallback for j in js if res[j]["status"] == "bounded"], "translate_s": round(tb, 1),
            "unit_list": [{"unit": res[j]["name"], "status": res[j]["status"], "obligations": res[j].get("obligations", 0),
                           "wall_s": round(res[j]["wall"], 2)} for j in js],
        },
        "assumptions": assumptions_for(prop, {c.split(" -> ")[0] for c in contracts}),
        "wall_s": round(wall, 1),
    }
    if vrec:
        evd["violations"] = vrec
    if not A.only:
        with open(ev, "w") as f:
            json.dump(evd, f, indent=1)
    log("%s: %d units, %d obligations, %d discharged, %.1f s (translate %.1f s)" % (prop, len(js), n_obl, n_dis, wall, tb))
    if lines:
        for l in lines:
            print(l)
        return 1
    n_obl = sum(res[j].get("obligations", 0) for j in js)
    n_dis = sum(res[j].get("discharged", 0) for j in js)
    if n_obl == 0 or n_dis != n_obl:
        print("ERROR vacuous or incomplete: %d of %d" % (n_dis, n_obl))
        return 2
    print("OK property=%s units=%d obligations=%d wall=%.0fs" % (prop, len(js), n_obl, wall))
    return 0

def replay(o, cfg, args, r, wd, seed, nat, bcs, deadline):
    """try to make the real code fail on a concrete input; returns a dict or None"""
    if o.noreplay:
        return None
    try:
        if cfg not in nat:
            nat[cfg] = None
            nat[cfg] = B.build_native(wd, cfg)
    except B.BuildError as e:
        log("native replay build failed:", e)
    if not nat[cfg]:
        return None
    entry, v = o.entry, (r.get("violations") or [])
    def models(vs, modes, tag):
        for i, x in enumerate(vs):
            if x.get("model"):
                mp = os.path.join(wd, "%s.%s%d" % (r["name"], tag, i))
                with open(mp, "w") as f:
                    for nm, d in x["model"].items():
                        for idx, vm in d.items():
                            f.write("%s %s %d %d\n" % (nm, idx, vm[0], vm[1]))
                for m in modes:
                    yield (seed, m, mp, args)
    def tries():
        if o.cbmc:
            # candidate inputs: the counterexample's values first, then the presets of the unit
            cand = [x["cbmc_model"] for x in v[:1] if x.get("cbmc_model")]
            for c in o.cbmc_replay[1](cand, args):
                yield (seed, 0, None, c)
            return
        yield from models(v[:4], (0, 1, 4), "model")
        for k in range(min(o.replays, 4)):
            yield (seed * 1000 + k, k % 4, None, args)
        # inputs that take the first data-dependent branches of the code either way
        h = run_job((o, cfg, args), bcs, wd, seed, ["--hints"], timeout=min(110, max(20, deadline - time.time())))
        if h.get("hints"):
            log("%s: %d directed inputs" % (r["name"], len(h["hints"])))
            yield from models(h["hints"], (0, 4), "hint")
        for k in range(4, o.replays):
            yield (seed * 1000 + k, k % 4, None, args)
    if o.cbmc:
        entry = o.cbmc_replay[0]
    used = 0
    for s, m, mp, rargs in tries():
        if used > o.replay_time or time.time() > deadline:
            break
        t0 = time.time()
        cmd = [nat[cfg], entry, str(s), str(m), mp or "-"] + [str(a) for a in rargs]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=97", UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1", LD_LIBRARY_PATH=os.environ.get("LD_LIBRARY_PATH", ""))
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
            rc, so, se = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, so, se = 124, "", "does not terminate within 120 s"
            if not o.hang_is_failure:
                continue
        used += time.time() - t0
        if rc == 1 and "REPLAY-MISMATCH" in so and not o.safety or rc in (97, 98, 134, 139, -6, -11) or rc == 124:
            return {"cmd": cmd, "seed": s, "mode": m, "model": open(mp).read() if mp else None, "exit": rc,
                    "stdout": so[-3000:], "stderr": se[-3000:]}
    return None

def write_replay(prop, o, cfg, args, r, rep):
    d = os.path.join(VERIF, "work", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, r["name"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "obligation": r["name"], "entry": o.entry, "config": cfg, "args": args,
                   "failed": r.get("violations") or r.get("error") or r.get("msg"), "verifier_output": {k: r.get(k) for k in ("status", "obligations", "discharged", "error", "labels")},
                   "verifier_cmd": r.get("cmd"), "failing_input": rep,
                   "how_to_replay": "from /verif: python3 driver/check.py <property> --keep --only <entry>; the failing input, if any, is failing_input.cmd with the binary of that run, built from /repo with -fsanitize=address,undefined"}, f, indent=1)
    return path

if __name__ == "__main__":
    sys.exit(main())
