"""Full-domain, loop-free harnesses run by Kani on the real crates (kani/)."""
import os, re, subprocess, time

def run(prop, spec, V, B, e, tier):
    """spec: list of harness names in kani/src/lib.rs."""
    res = dict(unit="kani", status="ok", failed=[], output="", fns=[], lost=[], verified=0, errors=0, secs=0.0,
               trusted=[], smoke=0, cmd="cargo kani " + " ".join("--harness " + h for h in spec))
    env = dict(e)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    t = time.time()
    try:
        r = subprocess.run(["cargo", "kani", "--target-dir", os.path.join(B, "kani"), "--exact"] + [x for h in spec for x in ("--harness", h)],
                           cwd=os.path.join(V, "kani"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
        out = r.stdout
    except subprocess.TimeoutExpired:
        res.update(status="lost", lost=["kani: timeout"])
        return res
    res["secs"] = time.time() - t
    done = {}
    for part in re.split(r"^Checking harness ", out, flags=re.M)[1:]:
        name = part.split("...")[0].strip().split("::")[-1]
        m = re.search(r"\*\* (\d+) of (\d+) failed", part)
        if m:
            n = int(m.group(2))
            res["errors"] += int(m.group(1)); res["verified"] += n - int(m.group(1))
        done[name] = "VERIFICATION:- SUCCESSFUL" in part
        if not done[name]:
            bad = re.findall(r"Failed Checks: (.*)", part)
            if bad and not all("unwinding" in b or "unsupported" in b.lower() for b in bad):
                res["failed"] += ["kani %s: %s" % (name, b) for b in bad]
            else:
                res["lost"].append("kani %s: no result" % name)
    for h in spec:
        if h not in done: res["lost"].append("kani %s: not run" % h)
    res["output"] = out[-6000:] if res["failed"] or res["lost"] else ""
    res["status"] = "failed" if res["failed"] else ("lost" if res["lost"] else "ok")
    res["fns"] = []
    return res
