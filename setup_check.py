#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (each check builds what it needs from /repo's working tree); verify the tools are there."""
import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write('#include "pbt.h"\nvoid prop(pbt::Src& s) { s.below(3); }\nPBT_MAIN(prop)\n')
    for san in ([], ["-fsanitize=address,bounds"], ["-fsanitize=thread"]):
        r = subprocess.run(["/usr/bin/clang++-18", "-std=c++17", "-O1", "-I" + os.path.join(here, "engine"), src, "-o", os.path.join(d, "t")] + san)
        if r.returncode:
            sys.exit(1)
    r = subprocess.run([os.path.join(d, "t"), "--cases", "100"], stdout=subprocess.DEVNULL)
    sys.exit(r.returncode)
