#!/usr/bin/env python3
"""Author's tool: plant(...) makes seeded/<id>/ from an edit and a demonstration
and confirms it in a scratch copy of /repo (builds, tests pass, demo 0 -> nonzero)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/vf-plant"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def fresh():
    if not os.path.isdir(WT):
        sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} fetch -q /repo && git -C {WT} checkout -q -f FETCH_HEAD && git -C {WT} clean -qfd lib")

def build_and_test():
    # like /opt/vp/build.sh and test.sh, but in the copy
    if not os.path.isdir(WT + "/_b2"):
        r = sh(f"cmake -S /opt/vp/cmake -B {WT}/_b2 -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DREPO={WT}")
        if r.returncode: return "cmake " + r.stderr[-500:]
    r = sh(f"cmake --build {WT}/_b2 -j8")
    if r.returncode: return "build " + r.stdout[-2000:]
    for t in ("common", "units", "core"):
        r = sh(f"timeout 300 {WT}/_b2/bin/scipp-{t}-test --gtest_brief=1")
        if r.returncode: return f"tests {t} " + r.stdout[-1500:]

def plant(id, prop, edits, demo, needs, breaks, extra_sources="", extra_flags="", files=None, script=None):
    d = f"{V}/seeded/{id}"
    fresh()
    os.makedirs(d, exist_ok=True)
    T = V + "/tools/demo_template"
    if script:
        open(d + "/demo.sh", "w").write(script)
    else:
        for x in ("inc", "units_shim"):
            shutil.copytree(f"{T}/{x}", f"{d}/{x}", dirs_exist_ok=True)
        shutil.copy(T + "/common.sh", d)
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(f'#!/bin/bash\nEXTRA="{extra_flags}"\n. "$(dirname "$0")/common.sh"\nrun_demo {extra_sources}\n')
    for k, v in (files or {}).items():
        open(f"{d}/{k}", "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"bash {d}/demo.sh", cwd=WT)
    if r.returncode != 0:
        print(id, "demo fails on the unchanged tree:", r.returncode, (r.stdout + r.stderr)[-1500:]); return False
    for f, old, new in edits:
        s = open(f"{WT}/{f}").read()
        if s.count(old) != 1:
            print(id, "edit does not match once:", f, s.count(old)); return False
        open(f"{WT}/{f}", "w").write(s.replace(old, new))
    p = sh(f"git -C {WT} diff").stdout
    open(d + "/patch.diff", "w").write(p)
    e = build_and_test()
    if e:
        print(id, "rejected:", e); return False
    r = sh(f"bash {d}/demo.sh", cwd=WT)
    print(id, "demo with the patch:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    return r.returncode != 0
