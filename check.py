#!/usr/bin/env python3
"""Run the solver-based checks of one property:  check.py C13 --tier quick|thorough"""
import sys, os, json, time, subprocess, hashlib, struct, threading, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
ENGINE = os.path.join(HERE, "engine")
BIN = os.path.join(ENGINE, "target", "release", "symla")
WBIN = os.path.join(ENGINE, "target", "wrap", "symla")
WRAP = set()  # harnesses run on the library compiled with wrapping machine integers


def binof(hid):
    return WBIN if hid in WRAP else BIN


sys.path.insert(0, os.path.join(HERE, "tools"))
import meta as META
import kanirun

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


def src_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def build(profile="release"):
    stamp = os.path.join(ENGINE, "target", "src.stamp" if profile == "release" else profile + ".stamp")
    want = src_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want and os.path.isdir(os.path.join(ENGINE, "target")):
        subprocess.run(["cargo", "clean", "--profile", profile, "-p", "la"], cwd=ENGINE, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--profile", profile, "--offline"], cwd=ENGINE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: the symbolic harness does not build against /repo")
        sys.exit(2)
    with open(stamp, "w") as f:
        f.write(want)


def unhex(v):
    return [struct.unpack(">d", bytes.fromhex(x))[0] for x in v]


def show(v):
    return [repr(x) for x in unhex(v)]


def run_one(hid, tier, seed, budget):
    cmd = [binof(hid), "one", hid, "--tier", tier, "--seed", str(seed), "--budget", str(budget)]
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
    try:
        out, err = p.communicate(timeout=budget + 90)
    except subprocess.TimeoutExpired:
        killpg(p)
        return {"id": hid, "crash": "wall clock limit", "wall": time.time() - t0}
    killpg(p)
    try:
        r = json.loads(out.decode(errors="replace").strip().splitlines()[-1])
    except Exception:
        return {"id": hid, "crash": "exit %s: %s" % (p.returncode, err.decode(errors="replace")[-300:]), "wall": time.time() - t0}
    return r


def killpg(p):
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass
    try:
        p.wait(timeout=5)
    except Exception:
        pass


def replay(hid, inputs, tol, fill=None, timeout=10):
    """[(status, fails)] per input; status in ok, skip, fail, hang, crash"""
    res = []
    todo = list(inputs)
    while todo:
        cmd = [binof(hid), "replay", hid, "--tol", str(tol)]
        if fill is not None:
            cmd += ["--fill", str(fill)]
        cmd += ["in:" + ",".join(v) for v in todo]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, start_new_session=True)
        hang = False
        try:
            out, _ = p.communicate(timeout=timeout + 0.2 * len(todo))
        except subprocess.TimeoutExpired:
            hang = True
            killpg(p)
            try:
                out, _ = p.communicate(timeout=2)
            except Exception:
                out = b""
        lines = out.decode(errors="replace").splitlines()
        n = 0
        for l in lines:
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                n += 1
                st = "skip" if d["skip"] else ("fail" if d["fails"] else "ok")
                res.append((st, d["fails"]))
        if n >= len(todo):
            break
        res.append(("hang", ["the call did not return within %d s" % timeout]) if hang else ("crash", ["the process died (exit %s)" % p.returncode]))
        todo = todo[n + 1:]
        if hang and sum(1 for r in res if r[0] == "hang") >= 2:
            break
    return res


def exact(hid, v):
    try:
        p = subprocess.run([binof(hid), "exact", hid, "in:" + ",".join(v)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, timeout=60)
        return json.loads(p.stdout.decode().strip().splitlines()[-1])["cands"]
    except Exception:
        return []


def norm(label):
    return label.replace(" (not finite)", "")


def confirm(hid, cand):
    """Replay a solver counterexample against the real code."""
    label = norm(cand["label"])
    rs = replay(hid, cand["inputs"], 1e-6)
    for v, (st, fails) in zip(cand["inputs"], rs):
        if st in ("hang", "crash"):
            return {"how": st, "input": show(v), "hex": v, "observed": fails[0]}
        if st == "fail":
            for f in fails:
                if f.startswith(label) or (f.startswith("panicked") and (label.startswith("panicked") or True)):
                    return {"how": "f32" if hid.startswith("rnd_") else "f64", "input": show(v), "hex": v, "observed": f}
    # an amplified rounding error counts only when a run in actual floating point shows it
    for v in cand["inputs"][:3] if not hid.startswith("rnd_") else []:
        for c in exact(hid, v):
            if norm(c["label"]) == label or c["label"].startswith("panicked"):
                return {"how": "exact arithmetic", "input": show(v), "hex": v, "observed": c["label"]}
    return None


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VP_JOBS", "8"))
    rdir = os.path.join(HERE, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    build()
    lst = subprocess.run([BIN, "list"], stdout=subprocess.PIPE, text=True, env=ENV).stdout.split("\n")
    hs = []
    for l in lst:
        f = l.split("\t")
        if len(f) >= 4 and f[0] == prop and (tier == "thorough" or f[2] == "0"):
            hs.append((f[1], int(f[2]), int(f[3])))
    WRAP.update(h[0] for h in hs if h[2] & 8)
    if WRAP:
        build("wrap")
    # biggest first
    hs.sort(key=lambda h: -META.cost(h[0]))
    limit = 560 if tier == "quick" else 6 * 3600
    budget = 240 if tier == "quick" else 3600
    violations, undecided, results = [], [], []
    lock = threading.Lock()

    def work(h):
        left = limit - (time.time() - t0)
        if left < 5:
            return {"id": h[0], "crash": "not started: time limit of the check"}
        r = run_one(h[0], tier, seed, min(budget, left))
        r["flags"] = h[2]
        return r

    def judge(r):
        hid = r["id"]
        out = []
        if "crash" in r:
            # the code under test may hang or kill the process: ask the real code directly
            k = META.default_inputs(hid)
            for v, (st, fails) in zip(k, replay(hid, k, 1e-4)):
                if st in ("hang", "crash") or (st == "fail" and any(f.startswith("panicked") for f in fails)):
                    out.append(dict(harness=hid, label="result never delivered", how=st, input=show(v), hex=v, observed=fails[0], path=""))
                    break
            if not out:
                with lock:
                    undecided.append("%s: %s" % (hid, r["crash"]))
            return out
        for c in r["cands"]:
            cf = confirm(hid, c)
            if cf:
                cf.update(harness=hid, label=c["label"], path=c["path"])
                out.append(cf)
                break
            with lock:
                undecided.append("%s: counterexample to '%s' not reproduced on the real code" % (hid, c["label"]))
        r["validated"] = 0
        r["mismatch"] = 0
        if not out:
            if r["stuck"]:
                for v, (st, fails) in zip(r["stuck"], replay(hid, r["stuck"][:6], 1e-3)):
                    if st in ("hang", "crash", "fail"):
                        out.append(dict(harness=hid, label=fails[0], how=st, input=show(v), hex=v, observed=fails[0], path="engine gave up on this path"))
                        break
            if not (r["flags"] & 2) and r["probes"]:
                for st, fails in replay(hid, r["probes"][:300], 1e-4):
                    if st == "ok":
                        r["validated"] += 1
                    elif st != "skip":
                        r["mismatch"] += 1
        with lock:
            for u in r["undecided"]:
                undecided.append("%s: %s" % (hid, u))
        return out

    kres = {"harnesses": [], "violations": [], "undecided": []}
    with ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(lambda h=h: (lambda r: (r, judge(r)))(work(h))) for h in hs]
        for f in as_completed(futs):
            r, v = f.result()
            results.append(r)
            violations.extend(v)
            if violations and tier == "quick" and len(violations) >= 3:
                for g in futs:
                    g.cancel()
                break
    if not violations:
        kres = kanirun.run(prop, tier, max(60, (800 if tier == "quick" else 4 * 3600) - (time.time() - t0)), jobs, src_hash(), ENV, rdir)
        violations.extend(kres["violations"])
        undecided.extend(kres["undecided"])

    known = META.known(HERE, prop)
    rc = 0
    nviol = 0
    reported = []
    for i, v in enumerate(violations):
        key = "%s|%s" % (v["harness"], v["label"])
        hit = [k for k in known if k.get("key") == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
            continue
        p = os.path.join(rdir, "violation-%d.json" % i)
        v["property"] = prop
        if "hex" in v:
            v["reproduce"] = "%s %s '%s' in:%s" % (binof(v["harness"]), "exact" if v["how"].startswith("exact") else "replay", v["harness"], ",".join(v["hex"]))
        json.dump(v, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s: %s" % (v["harness"], v.get("observed", v["label"])))
        print("  input %s" % (v.get("input"),))
        rc = 1
        nviol += 1

    good = [r for r in results if "crash" not in r]
    tot = lambda k: sum(r.get(k, 0) for r in good)
    samples = []
    for r in good:
        if r["probes"] and len(samples) < 6:
            samples.append({"harness": r["id"], "path_condition": r["sample_path"][:400], "witness": dict(zip(r["names"], show(r["probes"][0])))})
    for k in kres["harnesses"]:
        if len(samples) < 8:
            samples.append({"harness": k["id"], "verdict": k["verdict"], "checks": k.get("checks"), "solver_s": k.get("time")})
    kh = kres["harnesses"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("strata"),
            "transitions": tot("decisions") + sum(k.get("checks", 0) for k in kh),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples,
            "harnesses": len(good), "paths": tot("paths"), "strata": tot("strata"), "infeasible_branches": tot("infeasible"), "excluded_by_assumption": tot("assume"),
            "obligations": tot("obl"), "discharged_by_normal_form": tot("obl_norm"), "discharged_by_solver_after_normalisation": tot("obl_smt"), "boolean_obligations": tot("obl_bool"),
            "equalities_reasked_unnormalised": tot("raw_obl"), "equalities_confirmed_unnormalised": tot("raw_unsat"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"), "solver_time_s": round(tot("smt_s"), 2),
            "never_written_reads": tot("dirty"), "f64_probe_mismatches": tot("mismatch"),
            "kani_harnesses": [k for k in kh], "kani_solver_time_s": round(sum(k.get("time", 0) or 0 for k in kh), 2),
            "functions_encoded": META.functions(prop), "bounds": META.bounds(prop, [r["id"] for r in good], [k["id"] for k in kh]),
            "undecided": undecided[:40], "undecided_count": len(undecided),
            "per_harness": {r["id"]: {k: r.get(k) for k in ("paths", "strata", "decisions", "obl", "queries", "smt_s", "wall", "validated")} for r in good},
        },
        "assumptions": META.assumptions(prop),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d obligations, %d solver queries (%.1f s), %d Kani harnesses, %d undecided, %.1f s" % (
        prop, tier, len(good), tot("paths"), tot("obl"), tot("queries"), tot("smt_s"), len(kh), len(undecided), time.time() - t0))
    for u in undecided[:10]:
        print("  undecided: " + u[:300])
    if rc == 0 and not good and not [k for k in kh if k["verdict"] == "held"]:
        print("ERROR: nothing could be decided")
        rc = 2
    sys.exit(rc)


main()
