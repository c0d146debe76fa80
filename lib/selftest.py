"""setup_cmd: make sure the code under test imports and the harness works."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sim
sim.std_setup()
w = sim.World()
tm = sim.mk_stm(w)
w.advance(40)
assert not w.errors
print('harness ok', sim.REPO)
os._exit(0)
