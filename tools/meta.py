"""Descriptive tables used by check.py."""
import json, os, re, random, struct

def params(hid):
    m = re.search(r"\[(.*)\]", hid)
    return [int(x) for x in m.group(1).split(",") if x] if m else []

def cost(hid):
    """rough ordering only: bigger shapes first"""
    c = 1
    for p in params(hid):
        c *= 1 + abs(p)
    return c

def default_inputs(hid):
    rnd = random.Random(hid)
    out = []
    for k in range(6):
        v = [float(rnd.randint(-9, 9)) if k % 2 else rnd.uniform(-3, 3) for _ in range(80)]
        out.append([struct.pack(">d", x).hex() for x in v])
    return out

def known(here, prop):
    p = os.path.join(here, "known-findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d.get("property") == prop:
                    r.append(d)
    return r

T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.json")))

def functions(prop):
    return T[prop]["functions"]

def bounds(prop, hs, ks):
    return {"text": T[prop]["bounds"], "symbolic_harnesses": sorted(hs), "kani_harnesses": sorted(ks)}

COMMON = [
    "Number arithmetic in the symbolic harnesses is exact real arithmetic (the generic code instantiated with a symbolic number type); rounding is outside the claim.",
    "The literal 2^-52 (and anything below 2^-40) is an infinitesimal eps -> 0+ unless the harness says concrete eps.",
    "rustc, std, z3 and cvc5 (and Kani/CBMC for the Kani harnesses) are trusted.",
]

def assumptions(prop):
    return COMMON + T[prop].get("assumptions", [])
