#!/usr/bin/env python3
"""Development aid: small mechanical changes of the library, and which harness notices them.
  mutate.py OUT.jsonl JOBS MAX SEED [file-substring ...]
  mutate.py OUT.jsonl JOBS MAX SEED --again OLD.jsonl     (the survivors of OLD, with every harness)
Works in /tmp/mut; never touches /repo.  Survivors are read by hand: gap of a check, or no change of behaviour."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo/include"
SIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim")
W = "/tmp/mut"
OUT, JOBS, MAX, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
AGAIN = sys.argv[6] if sys.argv[5:6] == ["--again"] else None
SUB = [] if AGAIN else sys.argv[5:]
ORDER = [("card", "C11 C10 C03 C01 C12"), ("header", "C10 C03 C01 C08 C05 C12 C06"), ("fits_stream", "C13 C03 C01 C04 C05"),
         ("column", "C07 C15 C16 C01"), ("table", "C07 C15 C03 C16 C05 C06 C12 C04"), ("fits_reader", "C08 C02 C03 C16 C05 C12 C04"),
         ("image", "C17 C03 C01 C05 C16 C06 C12 C04"), ("primary", "C03 C01 C05 C16 C06 C12 C04"), ("converter", "C07 C01 C03 C06"), ("string_conv", "C11 C07 C10"),
         ("time", "C17 C14"), ("coordinate", "C17 C14"), ("", "C01 C03 C08 C02 C05 C16")]
F = "-std=c++14 -O0 -fsanitize=address -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -w -Wno-psabi".split()
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def mutants(path):
    src = open(path).read().split("\n")
    incomment = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith(("//", "#", "*", "using", "template", "typedef", "namespace", "public", "private", "protected", "struct", "class", "static_assert", "BOOST_STATIC")) or not s: continue
        code = l.split("//")[0]
        for a, b in (("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), ("||", "&&"), ("++", "--"), (" + ", " - "), (" - ", " + "), (" % ", " / "), ("true", "false"), ("false", "true"), ("2880", "2879"), ("+=", "="), ("find_last_not_of", "find_first_not_of")):
            k = code.find(a)
            if k >= 0: yield i, l[:k] + b + l[k + len(a):], a + "->" + b
        for m in re.finditer(r"(?<![<\w:])\s(<|>)\s", code):
            if "template" in code or "<<" in code: break
            yield i, l[:m.start(1)] + m.group(1) + "=" + l[m.end(1):], m.group(1) + "->" + m.group(1) + "="
        for m in re.finditer(r"(?<![\w\".'x])(\d+)(?![\w.\"'])", code):
            yield i, l[:m.start(1)] + str(int(m.group(1)) + 1) + l[m.end(1):], m.group(1) + "+1"
        m = re.match(r"(\s*)if\s*\((.*)\)\s*(\{?)\s*$", code)
        if m:
            yield i, m.group(1) + "if (!(" + m.group(2) + "))" + m.group(3), "negate"
            yield i, m.group(1) + "if ((" + m.group(2) + ") && false)" + m.group(3), "never"
        if re.match(r"\s*[\w:>.\-\[\]()*]+(\s*(=|\+=)\s*[^=].*|\(.*\)|\s*<<.*);\s*$", code) and not s.startswith(("return", "throw", "}", "friend")) and not re.match(r"\s*(const|auto|std::\w+(<.*>)?|int|std::size_t|bool|char|double)\s+\w+", code):
            yield i, "", "delete"
        if re.search(r"\) const \{", l) is None and s.startswith("throw "): yield i, "", "delete-throw"
def one(m):
    rel, i, new, what, old = m
    r = {"file": rel, "line": i + 1, "op": what, "old": old.strip(), "new": new.strip()}
    d = tempfile.mkdtemp(prefix="m", dir=W)
    try:
        inc = d + "/include"
        shutil.copytree(REPO, inc)
        p = inc + "/boost/astronomy/" + rel
        src = open(p).read().split("\n")
        src[i] = new
        open(p, "w").write("\n".join(src))
        order = next(o for k, o in ORDER if k in rel).split()
        for c in order:
            lc = c.lower()
            x = F + (["-fsanitize=signed-integer-overflow,integer-divide-by-zero,bounds,null,return,unreachable", "-fno-sanitize-recover=all"] if c == "C06" else [])
            b = sh(["g++"] + x + ([] if c == "C06" else ["-include", W + "/pch.hpp"]) + (["-include", "cstdint"] if c == "C06" else []) + ["-I" + inc, "-c", SIM + "/" + lc + ".cpp", "-o", d + "/x.o"])
            if b.returncode: r["result"] = "does not compile"; return r
            l = sh(["g++", "-fsanitize=address"] + (["-fsanitize=undefined"] if c == "C06" else []) + [d + "/x.o", W + "/o/sim.o", W + "/o/model.o", "-o", d + "/x", "-lpthread", "-ldl"])
            if l.returncode: r["result"] = "does not link"; return r
            os.makedirs(d + "/t", exist_ok=True)
            try: e = sh([d + "/x", "explore", "--seed", "1", "--runs", "1000000", "--jobs", "1", "--wall", "25", "--shrink", "0", "--tmp", d + "/t", "--out", d + "/res.json", "--replay-out", d + "/rep.json"], timeout=300)
            except subprocess.TimeoutExpired: r["result"] = "timeout " + c; return r
            if e.returncode == 1:
                try: v = json.load(open(d + "/res.json"))["violation"]; r["class"] = v["class"]; r["msg"] = v["message"][:150]
                except Exception: pass
                r["result"] = "killed " + c; return r
            if e.returncode != 0: r["result"] = "noanswer " + c + " " + e.stdout[-300:]; return r
        r["result"] = "SURVIVED"
        return r
    finally: shutil.rmtree(d, ignore_errors=True)
os.makedirs(W + "/o", exist_ok=True)
for s in ("sim", "model"): sh(["g++", "-std=c++17", "-O1", "-fsanitize=address", "-c", SIM + "/" + s + ".cpp", "-o", W + "/o/" + s + ".o"])
inc = set()
for f in subprocess.run("grep -hE '^#\\s*include\\s*<' -r /repo/include/boost/astronomy/io " + SIM + "/*.hpp " + SIM + "/c*.cpp", shell=True, capture_output=True, text=True).stdout.split("\n"):
    f = f.strip()
    if f and "astronomy" not in f: inc.add(f)
open(W + "/pch.hpp", "w").write("#include <cstdint>\n" + "\n".join(sorted(inc)) + "\n")
sh(["g++"] + F + ["-x", "c++-header", W + "/pch.hpp", "-o", W + "/pch.hpp.gch"])
ms = []
for base, _, fs in os.walk(REPO + "/boost/astronomy"):
    for f in sorted(fs):
        rel = os.path.relpath(base + "/" + f, REPO + "/boost/astronomy")
        if not (rel.startswith("io/") or "coordinate/io" in rel or rel.startswith("time/") or rel in ("coordinate/arithmetic.hpp", "coordinate/utility/utility.hpp")) or (SUB and not any(s in rel for s in SUB)): continue
        src = open(base + "/" + f).read().split("\n")
        for i, new, what in mutants(base + "/" + f): ms.append((rel, i, new, what, src[i]))
if AGAIN:
    old = [json.loads(l) for l in open(AGAIN)]
    old = [(r["file"], r["line"] - 1, r["op"], r["new"]) for r in old if r["result"] == "SURVIVED" and not r["file"].startswith("time/")]
    ms = [m for m in ms if (m[0], m[1], m[3], m[2].strip()) in old]
    ORDER[:] = [("", "C06 C04 C05 C10 C12 C16 C15 C03 C08 C07 C13 C11 C01 C02")]
random.Random(SEED).shuffle(ms)
todo = ms[:MAX]
print(len(ms), "mutants; running", min(MAX, len(ms)), flush=True)
with open(OUT, "a") as o, ThreadPoolExecutor(JOBS) as ex:
    for r in ex.map(one, todo):
        o.write(json.dumps(r) + "\n"); o.flush()
