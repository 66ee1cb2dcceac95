"""setup: check that the tools the checks need are present (nothing is built ahead of a check)."""
import shutil, sys, subprocess
import z3
for t in ('g++',):
    if not shutil.which(t): sys.exit('missing ' + t)
for t in (('clang++', 'clang++-18'), ('opt', 'opt-18')):
    if not any(shutil.which(x) for x in t): sys.exit('missing ' + t[0])
print('z3', z3.get_version_string())
