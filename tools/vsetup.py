import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
os.makedirs(os.path.join(vlib.VERIF, 'build'), exist_ok=True)
d = tempfile.mkdtemp(prefix='setup-', dir=os.path.join(vlib.VERIF, 'build'))
try:
    b = vlib.Build(d)
    print('setup: harness builds, instrumented:', b.instrumented)
finally:
    shutil.rmtree(d, ignore_errors=True)
