"""Compile the native seams (gcc) into /verif/.build, keyed by content."""

import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), ".build")


def preload_lib(name):
    src = os.path.join(HERE, "native", name + ".c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f"lib{name}-{h}.so")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"
        subprocess.run(
            ["gcc", "-O2", "-g", "-w", "-shared", "-fPIC", "-pthread", "-o", tmp, src, "-ldl"],
            check=True,
        )
        os.replace(tmp, out)
    return out
