#!/usr/bin/env python3
"""Development: writes and verifies the planted changes.  mkseeded.py [--check] [--notest] [id ...]"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import S
T = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(T), "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = sys.argv[1:]; chk = "--check" in args; notest = "--notest" in args; ids = [a for a in args if not a.startswith("-")]
base = json.load(open("/opt/vp/BASELINE.json"))
for s in S:
    if ids and not any(s["id"].startswith(i) for i in ids): continue
    d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f); t = open(p, newline="").read()
            rx = re.compile(r"\n(?:[ \t]*\n)*".join(re.escape(l) + (r"[ \t]*" if i < old.count("\n") else "") for i, l in enumerate(old.split("\n")) ))
            assert len(rx.findall(t)) == 1, (s["id"], f, len(rx.findall(t)), old)
            open(p, "w", newline="").write(rx.sub(lambda m: new, t))
        open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout.decode())
    finally:
        sh("git -C /repo checkout -- .")
    shutil.copy(T + "/demo.hpp", d + "/demo.hpp")
    open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n' + s["pre"] + "int main(int, char** argv) {\n    const std::string d = argv[1];" + s["demo"].rstrip() + "\n    std::cout << \"fine\" << std::endl;\n    return 0;\n}\n")
    flags = s["flags"]; tsan = "fsanitize=thread" in flags
    run = ('TSAN_OPTIONS=halt_on_error=1:exitcode=66 ' + ('$(setarch -R true 2>/dev/null && echo setarch -R) ' if tsan else '')) if tsan else ''
    open(d + "/demo.sh", "w").write("#!/bin/bash\n# Run in the repository's directory. Exit 0: the property holds in this case.\nset -u\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nwork=$(mktemp -d) || exit 2\ntrap 'rm -rf \"$work\"' EXIT\n"
        + f"g++ -std=c++14 -w -g1 {flags} -include cstdint -I include -I \"$here\" \"$here/demo.cpp\" -o \"$work/demo\" -lpthread || exit 2\nmkdir \"$work/files\"\n{run}timeout 120 \"$work/demo\" \"$work/files\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh(f"cd /repo && bash {d}/demo.sh"); res = [f"demo unpatched {a.returncode}"]
    if a.returncode: print(a.stdout[-1500:])
    try:
        ap = sh(f"git -C /repo apply {d}/patch.diff"); assert ap.returncode == 0, ap.stdout
        b = sh(f"cd /repo && bash {d}/demo.sh"); res.append(f"demo patched {b.returncode}"); tail = b.stdout.strip().splitlines()[-1:] 
        if not notest:
            t = sh("bash /opt/vp/build.sh >/tmp/build.log 2>&1; bash /opt/vp/test.sh /tmp/o.json"); o = json.load(open("/tmp/o.json"))
            res.append(f"tests {len(o.get('passed', []))}/{len(o.get('failed', []))}")
        if chk:
            c = sh(f"python3 /verif/check.py {s['prop']}", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            res.append(f"check {c.returncode} " + " | ".join(l for l in c.stdout.splitlines() if "VIOLATION" in l))
            if c.returncode != 1: res.append(c.stdout[-600:])
    finally:
        sh("git -C /repo checkout -- .")
    print(s["id"], s["prop"], *res, *tail, sep=" ; ", flush=True)
