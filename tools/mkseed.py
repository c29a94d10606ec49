#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY NEEDS BREAKS < python edits: development helper.
Makes seeded/ID from edits to a scratch copy of /repo. Edits are lines
'FILE<TAB>python-repr-old<TAB>python-repr-new' on stdin."""
import json, os, subprocess, sys, shutil, tempfile
def make(id, prop, needs, breaks, edits, demo_c=None, demo_sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, a, b in edits:
            p = t + "/w/" + f; s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo_c:
        open(d + "/demo.c", "w").write(demo_c)
        demo_sh = demo_sh or "native"
        if demo_sh in ("native", "noasm", "openmp", "makefile"):
            lib = "_build/%s/libbase64.a" % demo_sh
            if demo_sh == "makefile": lib = "_build/makefile/lib/libbase64.o"
            demo_sh = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -O1 -DBASE64_STATIC_DEFINE -Iinclude "$D/demo.c" %s%s -o "$T/demo"
timeout 100 "$T/demo"
""" % (lib, " -fopenmp" if demo_sh == "openmp" else "")
        elif demo_sh in ("aarch64", "armhf", "s390x", "i686"):
            trip = dict(aarch64="aarch64-linux-gnu", armhf="arm-linux-gnueabihf", s390x="s390x-linux-gnu", i686="i686-linux-gnu")[demo_sh]
            emu = dict(aarch64="qemu-aarch64", armhf="qemu-arm", s390x="qemu-s390x", i686="")[demo_sh]
            demo_sh = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s-gcc -O1 -static -DBASE64_STATIC_DEFINE -Iinclude "$D/demo.c" _build/%s/libbase64.a -o "$T/demo"
timeout 100 %s "$T/demo"
""" % (trip, demo_sh, emu)
    open(d + "/demo.sh", "w").write(demo_sh)
