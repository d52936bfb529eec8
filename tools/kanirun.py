"""Bounded model checking of /repo's compiled code with Kani/CBMC (harnesses in /verif/kharness).

Only checks labelled with the property id (and, in harnesses where the library must not panic, any other failed check)
count, and only after the counterexample has been replayed natively on the real code."""
import os, re, shutil, subprocess, time, queue
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(HERE, "kharness")
TGT = os.path.join(CRATE, "target")
BIN = os.path.join(TGT, "release", "kreplay")


def sh(cmd, env, timeout):
    p = subprocess.Popen(cmd, cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        out, rc = b"", None
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass
    if rc is None:
        try:
            out, _ = p.communicate(timeout=5)
        except Exception:
            pass
    return rc, out.decode(errors="replace")


def table(env, srchash):
    stamp = os.path.join(TGT, "src.stamp")
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != srchash and os.path.isdir(TGT):
        sh(["cargo", "clean", "--release", "--offline", "-p", "la"], env, 60)
        for d in os.listdir(TGT):
            if d.startswith("kani-"):
                shutil.rmtree(os.path.join(TGT, d), ignore_errors=True)
    rc, out = sh(["cargo", "build", "--release", "--offline"], env, 300)
    if rc != 0:
        return None, out[-800:]
    with open(stamp, "w") as f:
        f.write(srchash)
    rc, out = sh([BIN, "list"], env, 20)
    return [l.split("\t") for l in out.splitlines() if l.count("\t") == 4], ""


CHECK = re.compile(r"^Check \d+: (\S+)\n\s+- Status: (\w+)\n\s+- Description: \"(.*)\"(?:\n\s+- Location: (.*))?", re.M)


def values(out):
    """the inputs of every counterexample Kani prints"""
    res = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        res.append([[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([^\]]*)\]", block)])
    return res


def replay(name, vals, env):
    hexs = ",".join("".join("%02x" % b for b in v) for v in vals)
    rc, out = sh([BIN, "replay", name, hexs], env, 20)
    fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    st = "hang" if rc is None else "crash" if "END" not in out else "panic" if "\nPANIC" in "\n" + out else "skip" if "\nSKIP" in "\n" + out else "ok"
    msg = [l for l in out.splitlines() if "panicked at" in l]
    return st, fails, hexs, (msg[0] if msg else "")


def run(prop, tier, budget, jobs, srchash, env, rdir):
    res = {"harnesses": [], "violations": [], "undecided": []}
    if not os.path.isdir(CRATE):
        return res
    env = dict(env)
    t0 = time.time()
    t, err = table(env, srchash)
    if t is None:
        res["undecided"].append("the Kani harness crate does not build: " + err[-300:])
        return res
    hs = [h for h in t if h[0] == prop and (tier == "thorough" or h[2] == "0")]
    if not hs:
        return res
    workers = min(6, jobs, len(hs))
    slots = queue.Queue()
    for k in range(workers):
        slots.put(k)

    def one(h):
        _, name, _, nopanic, mod = h
        left = budget - (time.time() - t0)
        if left < 15:
            return {"id": name, "verdict": "not started"}, [], ["%s: not started, time limit" % name]
        k = slots.get()
        try:
            s = time.time()
            cap = min(left, 300 if tier == "quick" else 7200)
            rc, out = sh(["cargo", "kani", "--exact", "--harness", "%s::%s" % (mod, name), "--target-dir", os.path.join(TGT, "kani-%d" % k),
                          "-Z", "concrete-playback", "--concrete-playback=print"], env, cap)
            took = time.time() - s
        finally:
            slots.put(k)
        checks = CHECK.findall(out)
        m = re.search(r"Verification Time: ([\d.]+)", out)
        r = {"id": name, "checks": len(checks), "time": float(m.group(1)) if m else round(took, 2)}
        if rc is None or not checks or not m:
            r["verdict"] = "undecided"
            return r, [], ["%s: %s" % (name, "time limit" if rc is None else "no verdict: " + " ".join(out.split())[-200:])]
        mine = [c for c in checks if c[2].startswith(prop + ":")]
        failed = [c for c in checks if c[1] == "FAILURE"]
        unw = [c for c in failed if "unwinding assertion" in c[2]]
        soft = [c for c in failed if c[2].startswith("NaN on") or c[2].startswith("arithmetic overflow on floating")]
        bad = [c for c in failed if c in mine or (nopanic == "1" and c not in soft and c not in unw)]
        und = [c for c in mine if c[1] in ("UNDETERMINED", "UNKNOWN")]
        if bad:
            for vals in values(out):
                st, fails, hexs, msg = replay(name, vals, env)
                hit = [f for f in fails if f.startswith(prop + ":")]
                if hit or st in ("hang", "crash") or (st == "panic" and nopanic == "1"):
                    obs = hit[0] if hit else "%s %s" % (st, msg)
                    r["verdict"] = "violated"
                    return r, [dict(harness=name, label=hit[0] if hit else bad[0][2], how="kani", input=[list(v) for v in vals], observed=obs,
                                    reproduce="%s replay %s %s" % (BIN, name, hexs))], []
            r["verdict"] = "undecided"
            return r, [], ["%s: counterexample to '%s' not reproduced on the real code" % (name, bad[0][2])]
        if unw or und or not mine:
            r["verdict"] = "undecided"
            return r, [], ["%s: %s" % (name, "unwinding bound reached" if unw else "no verdict on the labelled checks")]
        r["verdict"] = "held"
        return r, [], []

    with ThreadPoolExecutor(workers) as ex:
        for r, v, u in ex.map(one, hs):
            res["harnesses"].append(r)
            res["violations"].extend(v)
            res["undecided"].extend(u)
    return res
