PROPERTY = 'C12'
NEEDS = 'a call long enough for interim accounting records before its stop record'
BREAKS = 'the stop record carries the durations, times and status type of all the interim records before it as well'
EDITS = [('sippy/RadiusAccounting.py', '''        attributes = self._attributes[:]
        if type''', '''        attributes = self._attributes
        if type''')]
DEMO = '''
import sim
sim.std_setup()
from sippy.RadiusAccounting import RadiusAccounting
from sippy.Time.MonoTime import MonoTime
w = sim.World()
recs = []
class RC:
    def do_acct(self, attributes, cb=None, *p):
        recs.append(list(attributes))
class L:
    def write(self, *a, **k): pass
class U:
    setup_ts = connect_ts = remote_ua = p1xx_ts = p100_ts = None
    def getAcct(self): return (MonoTime() - self.connect_ts, 0, True, False)
gc = {'_radius_client': RC(), '_sip_logger': L()}
a = RadiusAccounting(gc, 'answer', lperiod=10)
a.setParams('u', '1', '2', 'cid', '192.0.2.1')
u = U(); u.setup_ts = MonoTime(); u.connect_ts = MonoTime()
a.conn(u, MonoTime(), 'callee')
w.advance(25)
a.disc(u, MonoTime(), 'caller', 0)
assert len(recs) == 3, len(recs)
for r, st in zip(recs, ('Alive', 'Alive', 'Stop')):
    assert [v for n, v in r if n == 'Acct-Status-Type'] == [st], r
    assert len([v for n, v in r if n == 'Acct-Session-Time']) == 1, r
'''
