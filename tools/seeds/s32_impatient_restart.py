PROPERTY = 'C16'
NEEDS = 'a restart asked for while the only call left is still ringing, and the minute timer going off before it is answered'
BREAKS = 'the restart does not wait for calls being set up'
EDITS = [('sippy/b2bua.py', '''x.state in (CCStateConnected, CCStateARComplete))''', '''x.state in (CCStateConnected,))''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
NOTE = 'caught after strengthening (signal just before the minute timer)'
DEMO = '''
from b2b_model import *
import signal as sigs
br = Bridge(dict(conf=[('static_route', '5552@192.0.2.11:5060')]))
A = br.call()
br.pump()
br.legs[-1].answer(180)
br.pump()
done = []
class Os:
    def __getattr__(self, n):
        import os
        return getattr(os, n)
    def chdir(self, p):
        pass
    def execv(self, *a):
        done.append(a)
        raise SystemExit('restarted under a ringing call')
b2bua.os = Os()
br.tm.shutdown = lambda: None
cb, pr = br.w.signals[sigs.SIGPROF]
br.advance(50.0)
cb(*pr)
br.advance(20.0)
assert not done and not br.w.errors, br.w.errors
'''
