#!/usr/bin/env python3
"""mkplant.py: writes seeded/ID/{patch.diff,meta.json,main.rs} from the descriptions below."""
import json, os, subprocess, sys
W = "/tmp/plant/src"
OUT = "/verif/seeded"
def plant(id, prop, edits, needs, breaks, demo):
    subprocess.run(["rm", "-rf", "/tmp/plant/src"]); os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for f, a, b in edits:
        p = W + "/yamux/src/" + f
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True).stdout
    o = OUT + "/" + id
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    open(o + "/main.rs", "w").write("mod net;\nuse net::*;\n#[allow(unused_imports)]\nuse std::task::Poll;\n#[allow(unused_imports)]\nuse yamux::{Config, Mode};\n\nfn main() {\n" + demo.strip("\n") + "\n}\n")
    for f in ("demo.sh", "net.rs"):
        subprocess.run(["cp", "/verif/tools/demo/" + f, o + "/"], check=True)
    os.chmod(o + "/demo.sh", 0o755)
    print(id)
exec(open(sys.argv[1]).read())
