#!/usr/bin/env python3
"""Decide one property: ./check.py <property> [quick|thorough]

1. Deductive part: extract the functions under contract from /repo's current
   source, splice the contracts in, and have the verifier discharge every
   obligation (see contracts/ and tools/).
2. Counterexample search / bounded stand-in: run the executable form of the
   same contracts against the real code (harness/).

Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else is an error of
the check itself (for example /repo does not compile).
"""
import json, os, subprocess, sys, time, threading

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
B = os.path.join(V, "build")

def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(B, "target"))
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e

def build_harness():
    os.makedirs(B, exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("ERROR: the harness does not build against /repo")
        sys.exit(3)
    return os.path.join(B, "target", "debug", "contract-harness")

def known(prop):
    out = []
    try:
        for line in open(os.path.join(V, "known-findings.jsonl")):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    except FileNotFoundError:
        pass
    return out

def search(binary, prop, secs, seed, procs):
    """Run the executable contracts; returns (stats list, failure replay path or None, output)."""
    rd = os.path.join(B, "replay")
    os.makedirs(rd, exist_ok=True)
    ps = []
    for i in range(procs):
        out = os.path.join(rd, "%s.%d.json" % (prop, i))
        if os.path.exists(out):
            os.remove(out)
        a = [binary, prop, str(secs), str(seed * 64 + i), out] + (["random-only"] if i else [])
        ps.append((out, subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())))
    stats, fail, text, err = [], None, "", None
    for out, p in ps:
        try:
            o, _ = p.communicate(timeout=secs + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            err = "search process did not end"
        if p.returncode == 1 and os.path.exists(out):
            if fail is None:
                fail, text = out, o
                for _, q in ps:
                    if q.poll() is None:
                        q.kill()
        elif p.returncode == 0:
            for l in o.splitlines():
                if l.startswith("STATS "):
                    stats.append(json.loads(l[6:]))
        elif fail is None:
            # An abort (stack overflow, out of memory) of the code under test.
            err = "search process ended with %s: %s" % (p.returncode, o[-400:])
    return stats, fail, text, err

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    binary = build_harness()

    proof = None
    def run_proof():
        nonlocal proof
        try:
            import proofs
            proof = proofs.run(prop, V, B, env(), tier)
        except Exception as x:
            # an error of the deductive machinery is never an alarm
            proof = dict(failed=[], lost=["error in the deductive part: %r" % (x,)], output="", level="exploration",
                         coverage=dict(undecided=[repr(x)]), assumptions=[])
    th = threading.Thread(target=run_proof)
    th.start()
    secs, procs = (25, 4) if tier == "quick" else (240, 6)
    stats, fail, text, err = search(binary, prop, secs, seed, procs)
    th.join()
    if proof:
        for l in proof["lost"]:
            print("UNDECIDED by the verifier (the bounded stand-in decides): %s" % l)
    if not fail and not err and proof and proof["failed"]:
        # An obligation fails: look longer for an input that shows it on the real code.
        stats2, fail, text, err = search(binary, prop, 100 if tier == "quick" else 400, seed + 1000, 8)
        stats += stats2
    rc, violations = 0, 0
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fail:
        print(text.strip())
        print("VIOLATION property=%s replay=%s" % (prop, fail))
        rc, violations = 1, 1
    elif err:
        rp = os.path.join(B, "replay", prop + ".abort.json")
        json.dump({"property": prop, "kind": "abort", "failure": err}, open(rp, "w"), indent=1)
        print(err)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc, violations = 1, 1
    elif proof and proof["failed"]:
        rp = os.path.join(B, "replay", prop + ".obligation.json")
        json.dump({"property": prop, "kind": "failed-obligation", "obligations": proof["failed"],
                   "output": proof["output"][-20000:]}, open(rp, "w"), indent=1)
        for f in proof["failed"]:
            print("FAILED OBLIGATION %s" % f)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        rc, violations = 1, 1

    ex = sum(s["exhaustive_cases"] for s in stats)
    rnd = sum(s["random_cases"] for s in stats)
    dist = sum(s["random_distinct"] for s in stats)
    samples = [x for s in stats for x in s["samples"]][:4]
    cov = dict(evaluations=ex + rnd, distinct_nontrivial=ex + dist,
               rule="executable contract on the real code: every case of the small profile (exhaustive=%s), then seeded random cases of the large profile; cases discarded by a precondition are not counted (%d)" % (
                   bool(stats) and stats[0]["exhaustive_complete"], sum(s["discarded"] for s in stats)),
               samples=samples, exhaustive_small_profile=bool(stats) and stats[0]["exhaustive_complete"])
    level, assumptions = "exploration", ["bounded: the executable contracts cover the generated grammars only"]
    if proof:
        cov.update(proof["coverage"])
        level = proof["level"]
        assumptions = proof["assumptions"] + assumptions
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2), violations=violations),
              open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("OK property=%s %s cases=%d%s wall=%.1fs" % (prop, level, ex + rnd,
              " obligations=%d/%d" % (proof["coverage"].get("discharged", 0), proof["coverage"].get("obligations", 0)) if proof else "", time.time() - t0))
    sys.exit(rc)

main()
