"""Runs the deductive part of a check: assembles contract units from /repo's
current source and has Verus discharge every obligation; Kani for loop-free
full-domain harnesses."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import vx

REPO = "/repo"
UNITS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "units.json")))

def verus(text, path, e, timeout=400, extra=()):
    open(path, "w").write(text)
    env = dict(e)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    t = time.time()
    try:
        r = subprocess.run(["verus", os.path.basename(path), "--output-json", "--triggers-mode", "silent",
                            "--num-threads", "4", "--multiple-errors", "4"] + list(extra),
                           cwd=os.path.dirname(path), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "timeout", time.time() - t
    try:
        js = json.loads(out[out.index("{"):])["verification-results"]
    except (ValueError, KeyError):
        js = None
    return js, err, time.time() - t

def blocks(err):
    cur, out = [], []
    for l in err.split("\n"):
        if re.match(r"(error|warning|note)\b", l) and cur:
            out.append("\n".join(cur)); cur = []
        cur.append(l)
    out.append("\n".join(cur))
    return [b for b in out if b.startswith("error")]

KINDS = ("postcondition not satisfied", "invariant not satisfied", "precondition not satisfied", "assertion failed",
         "possible arithmetic", "possible division", "decreases not satisfied", "could not show", "recommendation",
         "unable to prove", "loop must have", "termination", "assert", "index", "ensures", "failed", "cannot show",
         "possible bit shift", "may not terminate", "not satisfied")

def fn_at(text, line):
    cur = None
    ls = text.split("\n")
    for i in range(min(line, len(ls))):
        m = re.match(r"// <<FN (.*)$", ls[i].strip())
        if m: cur = m.group(1)
        elif ls[i].strip() == "// FN>>": cur = None
    if cur: return cur, True
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.search(r"\bfn (\w+)", ls[i])
        if m: return m.group(1), False
    return "?", False

def trusted(text):
    out = []
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if "external_body" in l or "admit()" in l or re.search(r"\bassume\(", l) or "assume_specification" in l:
            rng = range(i, min(i + 4, len(ls))) if "external_body" in l or "assume_spec" in l else range(i, max(i - 8, 0), -1)
            for j in rng:
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", ls[j])
                if m:
                    out.append(m.group(1)); break
    return out

def run_unit(unit, cdir, bdir, e, tier):
    """dict(status ok|failed|lost, ...)"""
    res = dict(unit=unit, status="ok", failed=[], output="", fns=[], lost=[], verified=0, errors=0, secs=0.0, trusted=[], smoke=0)
    try:
        text, st = vx.assemble(REPO, cdir, unit)
    except vx.Lost as x:
        res.update(status="lost", lost=[str(x)])
        return res
    res["fns"] = [f for f in st["fns"] if f["mode"] == "verify"]
    res["assumed"] = [f["item"] for f in st["fns"] if f["mode"] == "assume"]
    res["trusted"] = [t for t in trusted(text) if t not in {f["name"] for f in st["fns"]}]
    if st["lost"]:
        res.update(status="lost", lost=st["lost"])
        return res
    name = unit.replace(".vrs", "").replace("-", "_")
    path = os.path.join(bdir, name + ".rs")
    js, err, secs = verus(text, path, e)
    if js is not None and js.get("errors", 0) and not js.get("encountered-vir-error"):
        # one more attempt with another seed and more resources: a solver that wavers is no violation
        js2, err2, secs2 = verus(text, path, e, extra=("--rlimit", "60", "--smt-option", "smt.random_seed=7"))
        secs += secs2
        if js2 is not None and "errors" in js2 and js2["errors"] <= js["errors"]: js, err = js2, err2
    res["secs"] = secs
    if js is None or "errors" not in js or js.get("encountered-vir-error"):
        res.update(status="lost", lost=["verifier rejects the extracted text: " + (blocks(err) or [err[-600:]])[0][:600]])
        return res
    res["verified"], res["errors"] = js["verified"], js["errors"]
    bs = [b for b in blocks(err) if "aborting due to" not in b]
    if js["errors"] == 0 and js["success"] and not bs:
        if js["verified"] == 0 or not res["fns"]:
            res.update(status="lost", lost=["no obligation was generated"])
        return res
    hard = []
    for b in bs:
        m = re.search(r"--> [^\s:]+:(\d+):", b)
        item, ext = fn_at(text, int(m.group(1))) if m else ("?", False)
        head = b.split("\n")[0]
        if "Resource limit" in b or "rlimit" in b or "timed out" in b:
            res["lost"].append("%s: solver gave up" % item)
        elif any(k in head for k in KINDS):
            # the location may be in a callee's contract: prefer an extracted function named in the block
            items = [fn_at(text, int(x)) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
            hard.append("%s: %s [%s]" % (item, head[7:], unit))
        else:
            res["lost"].append("%s: %s" % (item, head))
    res["output"] = err[-12000:]
    res["failed"] = hard
    res["status"] = "failed" if hard and not any("solver gave up" not in l for l in res["lost"]) else "lost"
    if js["verified"] == 0 and not hard:
        res["status"] = "lost"
    return res

def smoke_unit(unit, cdir, bdir, e, nloops):
    """assert(false) at the start of every function (and of every k-th loop body) must fail."""
    def one(k):
        pt = "begin" if k < 0 else "loop%d.begin" % k
        text, st = vx.assemble(REPO, cdir, unit, smoke=pt)
        # lemmas are proved in the run itself
        text = re.sub(r"(?m)^pub proof fn", "#[verifier::external_body] pub proof fn", text)
        path = os.path.join(bdir, "%s_smoke%d.rs" % (unit.replace(".vrs", ""), k + 1))
        fs = [f for f in st["fns"] if f["mode"] == "verify" and (k < 0 or f["loops"] > k)]
        want = {f["item"] for f in fs}
        only = ()
        if len(fs) == 1 and text.count("fn %s(" % fs[0]["name"].split("::")[-1]) == 1:
            it = fs[0]["item"]
            only = ("--verify-root", "--verify-function", it if "::" in it and " " not in it and fs[0]["name"] == it.split("::")[-1] else fs[0]["name"])
        js, err, secs = verus(text, path, e, extra=only)
        if only and "/* smoke" not in err:
            js, err, secs = verus(text, path, e)
        got = set()
        for b in blocks(err):
            m = re.search(r"--> [^\s:]+:(\d+):", b)
            if m and "/* smoke" in b:
                got.add(fn_at(text, int(m.group(1)))[0])
        return pt, sorted(want - got), len(want)
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, range(-1, nloops)))

def run(prop, V, B, e, tier):
    if prop not in UNITS:
        return None
    spec = UNITS[prop]
    bdir = os.path.join(B, "vx", prop)
    os.makedirs(bdir, exist_ok=True)
    cdir = os.path.join(V, "contracts")
    rs = []
    with ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(lambda u: run_unit(u, cdir, bdir, e, tier), spec.get("verus", [])))
    if spec.get("kani"):
        import kani
        rs.append(kani.run(prop, spec["kani"], V, B, e, tier))
    vac = []
    if all(r["status"] == "ok" for r in rs):
        for u, r in zip(spec.get("verus", []), rs):
            n = max([f["loops"] for f in r["fns"]] or [0])
            for pt, missing, tot in smoke_unit(u, cdir, bdir, e, n):
                r["smoke"] += tot - len(missing)
                if missing:
                    vac.append("%s: contradictory context at %s of %s" % (u, pt, ", ".join(missing)))
    failed = [f for r in rs if r["status"] == "failed" for f in r["failed"]]
    lost = [l for r in rs for l in r["lost"]] + vac
    ok = not failed and not lost
    dis = sum(r["verified"] for r in rs)
    obl = dis + sum(r["errors"] for r in rs)
    out = dict(failed=failed, lost=lost, output="\n".join(r["output"] for r in rs),
               coverage=dict(
                   obligations=max(obl, 1), discharged=dis,
                   checker_cmd="; ".join(r.get("cmd", "verus %s (assembled by tools/vx.py from /repo)" % r["unit"]) for r in rs),
                   back_end="Verus 0.2026.09.13 with Z3" + ("; Kani 0.68 with CBMC" if spec.get("kani") else ""),
                   solver_seconds=round(sum(r["secs"] for r in rs), 2),
                   functions_under_contract=sorted({"%s (%s)" % (f["item"], f["path"]) for r in rs for f in r["fns"]}),
                   lowerings=sorted({x for r in rs for f in r["fns"] for x in f.get("lowered", [])}),
                   reachability_checks=sum(r["smoke"] for r in rs),
                   trusted_base=sorted({t for r in rs for t in r["trusted"]}) + spec.get("trusted", []),
                   undecided=lost),
               level=(spec.get("level", "proof") if ok else "exploration"),
               assumptions=spec.get("assumptions", []) + spec.get("bounded", []) + lost)
    return out
