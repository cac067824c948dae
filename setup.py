"""checks that the tools the checks need are present (nothing is built ahead: every check builds from /repo)"""
import shutil, subprocess, sys
for t in ("g++", "clang++-18"):
    if not shutil.which(t):
        sys.exit("missing " + t)
subprocess.check_call(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3, cvc5"])
print("ok")
