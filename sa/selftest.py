"""setup: byte-compile the analyser and confirm the tools it needs are present"""
import os, sys, py_compile, subprocess
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
for f in sorted(os.listdir(H)):
    if f.endswith('.py'): compile(open(os.path.join(H, f)).read(), f, 'exec')
import ob
for t in (ob.CLANG, ob.OPT):
    subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
print('ok')
