#!/usr/bin/env python3
"""mkbug.py SPEC.py : writes seeded/<id>/ from BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C source or demo_sh=shell)]"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
# builds the demonstration against the library in /repo and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
gcc -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -w -I/repo/c -I/repo/c/graphLib "$D/demo.c" $(find /repo/c/graphLib -name '*.c') -lm -o "$S/demo" || exit 99
cd "$S" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
for b in ns["BUGS"]:
    W = "/tmp/mkbug"; shutil.rmtree(W, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", W]); subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    try:
        for f, old, new in b["edits"]:
            p = W + "/" + f; s = open(p, newline="").read()
            if "\r\n" in s: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        d = V + "/seeded/" + b["id"]; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", W, "diff"]))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "demo" in b: open(d + "/demo.c", "w").write(b["demo"])
        for k, v in b.get("files", {}).items(): open(d + "/" + k, "w").write(v)
        open(d + "/demo.sh", "w").write(b.get("demo_sh", SH)); os.chmod(d + "/demo.sh", 0o755)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    print(b["id"], "written")
