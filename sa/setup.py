"""setup_cmd: verifies that the analysis itself works here (term domain and algorithm self-tests, toolchain)."""
import os, subprocess, sys
H=os.path.dirname(os.path.abspath(__file__))
for f in('selftest_terms.py','selftest_spec.py'):
    r=subprocess.run([sys.executable,os.path.join(H,f)],cwd=H)
    if r.returncode: sys.exit(r.returncode)
sys.path.insert(0,H)
import build
build.module('x64','t1ha2'); print('toolchain ok')
