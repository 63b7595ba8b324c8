#!/usr/bin/env python3
"""replay.py HARNESS ENTRY FILE: runs a counterexample against a native build of the current /repo."""
import sys, os, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
w = tempfile.mkdtemp(prefix='verif_replay_')
try:
    bc, nat = vlib.compile_harness(sys.argv[1], w)
    r = subprocess.run([nat, sys.argv[2], sys.argv[3]], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    print('native exit code', r.returncode)
finally: shutil.rmtree(w, ignore_errors=True)
