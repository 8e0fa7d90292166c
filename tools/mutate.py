#!/usr/bin/env python3
"""Mutation sweep: small changes all over the library that its own tests do not notice, against short
runs of every check.  For developing the checks; nothing here is used by them.

mutate.py gen FILE                      writes the list of mutants
mutate.py run LIST OUT WORKERS [SCALE [N/K]]  tests each (or every Nth from K), runs the checks (SCALE of the quick runs) on survivors
"""
import json, os, re, shutil, subprocess, sys, threading, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["decode", "detect", "geometry", "prepare", "lib", "identify/grid", "identify/match_capstones"]
CHECKS = {
    "decode": "C01 C13 C04 C02 C15 C03 C16 C06 C05 C14 C18 C10 C08 C09 C07 C11 C12",
    "lib": "C01 C13 C18 C15 C03 C04 C10 C16 C06 C08 C02 C05 C14 C09 C07 C11 C12",
    "": "C08 C09 C10 C07 C11 C12 C18 C15 C14 C06 C16 C05 C01 C02 C03 C04 C13",
}
QUICK = {m[0]: int(m[1].replace("_", "")) for m in re.findall(r'id: "(C\d+)".*?quick_runs: ([\d_]+)', open(f"{ROOT}/sim/src/props.rs").read(), re.S)}

def code_lines(path):
    out, depth_test = [], False
    for i, l in enumerate(open(path).read().split("\n")):
        if l.startswith("#[cfg(test)]"):
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("*") or s.startswith("/*") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use"):
            continue
        out.append((i, l))
    return out

SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
         (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" && ", " || "), (" || ", " && "),
         (" += ", " -= "), (" -= ", " += "), ("..=", ".."), (" ^= ", " |= "), (" |= ", " ^= "), (" >> ", " << "), (" << ", " >> "),
         (" % ", " / "), ("true", "false"), ("false", "true"), ("continue", "break"), ("break", "continue"),
         ("cmp::max", "cmp::min"), ("cmp::min", "cmp::max"), (" & ", " | "), (".abs()", ""), ("rotate_left", "rotate_right"), (".rev()", "")]

def gen(out):
    ms = []
    for f in FILES:
        p = f"/repo/src/{f}.rs"
        for i, l in code_lines(p):
            if re.search(r"^\s*(pub )?fn |^\s*impl|^\s*where|->|^\s*assert", l):
                continue
            code = l.split("//")[0]
            new = set()
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), code):
                    new.add(code[:m.start()] + b + code[m.end():])
            for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.]*[\"'])", code):
                if m.group(1).startswith("0") and len(m.group(1)) > 1:
                    continue
                v = int(m.group(1))
                for d in ([1] if v == 0 else [1, -1]):
                    new.add(code[:m.start()] + str(v + d) + code[m.end():])
            for m in re.finditer(r"(?<![\w])(\d+\.\d+)(f64)?", code):
                v = float(m.group(1))
                for k in (v * 1.5 + 0.1, v * 0.6):
                    new.add(code[:m.start()] + repr(round(k, 4)) + (m.group(2) or "") + code[m.end():])
            if re.match(r"^\s*[\w.\[\]() *&+-]+( [-+|^*]?= .*|\(.*\));$", code) and not code.strip().startswith("let"):
                new.add("")
            if re.match(r"^\s*return .*;$", code):
                new.add("")
            for n in sorted(new):
                if n != code:
                    ms.append({"file": f, "line": i, "old": l, "new": n})
    json.dump(ms, open(out, "w"), indent=0)
    print(len(ms))

def sh(cmd, cwd, timeout, env):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -9 -f {cwd}/", shell=True)
        return 99, "timeout"

def worker(n, q, out, lock, scale, base):
    d = f"/tmp/mut/w{n}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
    subprocess.run(f"mkdir {d}/verif && cp -a {ROOT}/sim {ROOT}/known-findings.txt {ROOT}/properties.jsonl {d}/verif/ && sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/sim/glue/Cargo.toml && sed -i 's/return giant(46_400 + draw(300) as usize);/return Ok(());/' {d}/verif/sim/src/sc_image.rs", shell=True, check=True)
    env = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{d}/repo/target", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    env2 = dict(os.environ, HOME="/root", VERIF_ROOT=f"{d}/verif", VERIF_SEED="1", VERIF_TIER="quick", RUST_BACKTRACE="0")
    while True:
        try:
            k, m = q.get_nowait()
        except queue.Empty:
            break
        p = f"{d}/repo/src/{m['file']}.rs"
        orig = open(f"/repo/src/{m['file']}.rs").read()
        ls = orig.split("\n")
        assert ls[m["line"]] == m["old"]
        ls[m["line"]] = m["new"]
        open(p, "w").write("\n".join(ls))
        res = dict(m, id=k)
        rc, o = sh("cargo test --workspace --offline -q", f"{d}/repo", 150, env)
        if rc != 0:
            res["by"] = "compiler" if "could not compile" in o else "tests"
        else:
            rc, o = sh(f"bash {d}/verif/sim/build.sh", d, 400, env2)
            res["by"] = "nothing"
            if rc != 0:
                res["by"] = "sim does not build"
            else:
                for c in CHECKS.get(m["file"], CHECKS[""]).split():
                    rc, o = sh(f"{d}/verif/sim/target/release/sim check {c} --no-evidence --workers 1 --runs {max(8, int(QUICK[c] * scale))} --secs 60", d, 400, env2)
                    if rc != 0:
                        res["by"] = c
                        res["what"] = o.strip().split("\n")[0][:160]
                        break
        open(p, "w").write(orig)
        with lock:
            with open(out, "a") as fh:
                fh.write(json.dumps(res) + "\n")
    shutil.rmtree(d, ignore_errors=True)

if sys.argv[1] == "gen":
    gen(sys.argv[2])
else:
    ms = json.load(open(sys.argv[2]))
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.loads(l)["id"] for l in open(sys.argv[3])}
    q = queue.Queue()
    step, off = (int(x) for x in (sys.argv[6] if len(sys.argv) > 6 else "1/0").split("/"))
    for k, m in enumerate(ms):
        if k not in done and k % step == off:
            q.put((k, m))
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(n, q, sys.argv[3], lock, float(sys.argv[5]) if len(sys.argv) > 5 else 0.03, None)) for n in range(int(sys.argv[4]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
