"""check that everything the checks need is present (nothing is built ahead of a check)"""
import os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, "build"), exist_ok=True)
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
for t in ("clang++-18", "opt-18", "cvc5"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
py = "/opt/veriftools/pyvenv/bin/python3"
sys.exit(subprocess.call([py if os.path.exists(py) else "python3-vt", "-c", "import z3, sys; sys.path.insert(0, %r); import llvmir, symex, prove, builtins_" % os.path.join(H, "engine")]))
