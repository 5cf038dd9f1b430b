#!/usr/bin/env python3
"""Write planted bugs into /verif/seeded/<id>/ (patch.diff, demo.sh, meta.json and what the demo needs)."""
import os, subprocess, sys, json, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
PRE = "#![allow(unused)]\nuse cfg_grammar::*;\nuse cfg_symbol::*;\nfn rules(c: &Cfg) -> Vec<(usize, Vec<usize>)> { c.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect())).collect() }\n"
S = {}
def seed(id, prop, edits, needs, breaks, demo):
    S[id] = (prop, edits, needs, breaks, demo)
exec(open(os.path.join(HERE, "seeds.py")).read())
only = sys.argv[1:]
for id, (prop, edits, needs, breaks, demo) in S.items():
    if only and id not in only:
        continue
    w = "/tmp/seedmk"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for path, a, b in edits:
        p = os.path.join(w, path)
        t = open(p).read()
        assert t.count(a) == 1, (id, path, a, t.count(a))
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "Cargo.toml.in"):
        shutil.copy(os.path.join(HERE, f), d + "/" + f)
    shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock")
    open(d + "/demo.rs", "w").write(PRE + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(subprocess.run(["bash", os.path.join(HERE, "validate.sh"), id], stdout=subprocess.PIPE, text=True).stdout.strip(), flush=True)
