"""Checks that the tools are present; nothing needs to be prepared (every check extracts and builds from /repo itself)."""
import shutil, sys, os
ok=True
for t in ('verus','clang++','g++'):
    if not shutil.which(t): print('missing tool:',t); ok=False
for d in ('_build','evidence','replays'): os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)),d),exist_ok=True)
sys.exit(0 if ok else 1)
