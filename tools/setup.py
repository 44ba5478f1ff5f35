"""setup_cmd: nothing is built ahead of time; checks that the tools the framework needs are present."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.dont_write_bytecode = True
import z3, numpy, scipy
import engine.loader
assert os.path.exists('/opt/venv/bin/python')
os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
