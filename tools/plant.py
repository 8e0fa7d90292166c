#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description (tools/plants/<id>.py) and confirms it in a scratch copy.

A description sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (body of main.rs) and
optionally FEATURES ("img"), IMAGE (True: the demo also uses the image crate).
Usage: plant.py ID...   writes and verifies."""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kit = os.path.join(root, "tools/demokit")
env = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def plant(pid):
    ns = {}
    exec(open(f"{root}/tools/plants/{pid}.py").read(), ns)
    d = f"{root}/seeded/{pid}"
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="plant")
    try:
        repo = f"{scratch}/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        shutil.copy(f"{kit}/kit.rs", d)
        demo = open(f"{kit}/demo.sh").read()
        demo = demo.replace("FEATURES", '"img"' if ns.get("FEATURES") else "")
        demo = demo.replace("IMAGE", 'image = { version = ">= 0.24, <= 0.25", default-features = false, features = ["pnm"] }' if ns.get("IMAGE") else "")
        open(f"{d}/demo.sh", "w").write(demo)
        open(f"{d}/main.rs", "w").write("mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n" + ns["DEMO"])
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", repo)
        if r.returncode != 0:
            return "demo FAILS ON CLEAN TREE: " + r.stdout[-1500:]
        for f, old, new in ns["EDITS"]:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit of {f} matches {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        t = sh(f"CARGO_TARGET_DIR={repo}/target cargo test --workspace --offline 2>&1", repo)
        ok = t.stdout.count("... ok")
        if t.returncode != 0:
            return "tests fail with the change: " + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l)[:1500]
        r2 = sh(f"bash {d}/demo.sh", repo)
        if r2.returncode == 0:
            return f"DEMO PASSES WITH THE CHANGE ({ok} tests ok)"
        if r2.returncode == 3:
            return "DEMO DOES NOT BUILD WITH THE CHANGE " + r2.stdout[-800:]
        return f"good ({ok} tests ok; demo exits {r2.returncode}: {r2.stdout.strip().splitlines()[-1:] })"
    finally:
        shutil.rmtree(scratch)

for p in sys.argv[1:]:
    print(p, plant(p), flush=True)
