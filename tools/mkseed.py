#!/usr/bin/env python3
"""mkseed.py SPEC [name..]: make and confirm planted bugs from a spec file.
Blocks: '### name property', 'NEEDS: ..', 'BREAKS: ..', 'FILE src/x.rs' + <<< old === new >>>,
'DEMO' + <<< script >>>, 'USE file' (copied beside the demo)."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"


def sh(cmd, cwd=None, timeout=400):
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    return subprocess.run(cmd, cwd=cwd or W, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))


def reset():
    if not os.path.exists(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def main():
    spec = open(sys.argv[1]).read()
    only = sys.argv[2:]
    for blk in re.split(r"^### ", spec, flags=re.M)[1:]:
        head, body = blk.split("\n", 1)
        name, prop = head.split()[:2]
        if only and name not in only:
            continue
        for f, n in re.findall(r"^MUT (\S+) (\S+)$", body, flags=re.M):
            body += "\n" + re.search(r"^### %s .*?\n(.*?)(?=^### |\Z)" % re.escape(n), open(f).read(), flags=re.M | re.S).group(1)
        reset()
        if sh("cargo build --offline -q").returncode:
            print(name, "base does not build"); return
        for m in re.finditer(r"^FILE (\S+)\n<<<\n(.*?)\n?===\n(.*?)\n?>>>", body, flags=re.M | re.S):
            p = os.path.join(W, m.group(1))
            s = open(p).read()
            if s.count(m.group(2)) < 1:
                print(name, "pattern not found:", m.group(2)[:80]); break
            open(p, "w").write(s.replace(m.group(2), m.group(3), 1))
        else:
            d = os.path.join(V, "seeded", name)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            diff = sh("git diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            py = re.search(r"^PY\n<<<\n(.*?)\n>>>", body, flags=re.M | re.S)
            if py:
                open(d + "/demo.py", "w").write("from drive import *\n\n" + py.group(1) + "\n")
                shutil.copy(os.path.join(V, "tools", "drive.py"), d)
                demo = 'exec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"'
            else:
                demo = re.search(r"^DEMO\n<<<\n(.*?)\n>>>", body, flags=re.M | re.S).group(1)
            open(d + "/demo.sh", "w").write("#!/bin/bash\n" + demo + "\n")
            for u in re.findall(r"^USE (\S+)", body, flags=re.M):
                shutil.copy(os.path.join(V, "tools", u), d)
            json.dump({"property": prop, "needs": re.search(r"^NEEDS: (.*)", body, flags=re.M).group(1),
                       "what_it_breaks": re.search(r"^BREAKS: (.*)", body, flags=re.M).group(1)}, open(d + "/meta.json", "w"), indent=1)
            sh("git checkout -q -- .")
            sh("cargo build --offline -q")
            base = sh(["bash", d + "/demo.sh"])
            sh(["git", "apply", d + "/patch.diff"])
            b = sh("cargo build --offline -q")
            t = sh("cargo test --offline -q")
            bad = sh(["bash", d + "/demo.sh"])
            ok = base.returncode == 0 and b.returncode == 0 and t.returncode == 0 and "66 passed" in t.stdout and bad.returncode != 0
            print(name, prop, "OK" if ok else "REJECTED", "base=%d build=%d test=%d patched=%d" % (base.returncode, b.returncode, t.returncode, bad.returncode))
            if not ok:
                print(base.stdout[-600:], b.stdout[-800:] if b.returncode else "", t.stdout[-500:] if t.returncode else "", bad.stdout[-300:])
                if base.returncode != 0 or bad.returncode == 0 or b.returncode or t.returncode:
                    os.makedirs("/tmp/rejected", exist_ok=True)
                    shutil.rmtree("/tmp/rejected/" + name, ignore_errors=True)
                    shutil.move(d, "/tmp/rejected/" + name)
            sh("git checkout -q -- .")


main()
