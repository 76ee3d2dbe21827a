#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list of planted bugs below. Development tool; no check uses it.
usage: seeds.py [id...]   (patches are made against the tree in REPO, default /repo)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
REPO = os.environ.get("REPO", "/repo")
S = []
def seed(id, prop, edits, needs, breaks, demo, aux=(), sh='demo.sh'):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, aux=aux, sh=sh))
HEAD = """#![allow(dead_code, unused_imports)]
mod help;
mod interp;
mod prog;
mod pyt;
mod sim;
use help::*;
use interp::Opts;
use tket::hugr::algorithms::ComposablePass;
use tket::hugr::hugr::hugrmut::HugrMut;
use tket::hugr::{Hugr, HugrView, Node};
use tket::Circuit;
"""
exec(open(os.path.join(here, "seedlist.py")).read())
def write(s):
    d = os.path.join(root, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.")
    diff = ""
    byfile = {}
    for f, old, new in s["edits"]:
        t = byfile.get(f) or open(os.path.join(REPO, f)).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        byfile[f] = t.replace(old, new)
    for f, t in byfile.items():
        for k, txt in (("a", open(os.path.join(REPO, f)).read()), ("b", t)):
            p = os.path.join(w, k, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(txt)
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True)
    diff = r.stdout
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.copy(os.path.join(here, "seedlib", s["sh"]), os.path.join(d, "demo.sh"))
    for f in s["aux"]:
        shutil.copy(os.path.join(here, "seedlib", f), d)
    if s["demo"] is not None:
        open(os.path.join(d, "demo.rs"), "w").write(HEAD + s["demo"])
        for f in ("help.rs", "pyt.rs"):
            shutil.copy(os.path.join(here, "seedlib", f), d)
        for f in ("prog.rs", "interp.rs", "sim.rs"):
            shutil.copy(os.path.join(root, "mc", "core", "src", f), d)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
for s in S:
    if len(sys.argv) == 1 or s["id"] in sys.argv[1:]:
        write(s)
        print(s["id"])
