#!/usr/bin/env python3
"""Parses the specification and compiles its arithmetic accelerators once, as a sanity check of the sandbox.
The checks need nothing of what it builds."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
w = tempfile.mkdtemp(prefix='qmverif-')
try:
    core.javac(w)
    for m in ('Trace',):
        r = subprocess.run(['java', '-cp', core.TLAJARS, '-DTLA-Library=' + core.SPEC, 'tla2sany.SANY', os.path.join(core.SPEC, m + '.tla')],
                           capture_output=True, text=True, cwd=w)
        if r.returncode or '*** Errors' in r.stdout or 'Semantic error' in r.stdout:
            print(r.stdout)
            sys.exit(1)
    print('ok')
finally:
    shutil.rmtree(w, ignore_errors=True)
