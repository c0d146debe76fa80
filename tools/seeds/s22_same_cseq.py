PROPERTY = 'C05'
NEEDS = 'a request with the CSeq of an earlier one of the same call but with another branch'
BREAKS = 'the request is acted upon once more although it is not newer than the ones before'
EDITS = [('sippy/UA.py', '''        if self.rCSeq != None and self.rCSeq >= req.getHFBody('cseq').getCSeqNum():
''', '''        if self.rCSeq != None and self.rCSeq > req.getHFBody('cseq').getCSeqNum():
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
DEMO = '''
from b2b_model import *
br = Bridge(dict(conf=[('static_route', '5552@192.0.2.11:5060')]))
A = br.call()
br.advance(0.2)
B = list(br.p1.legs.values())[0]
B.answer(200, SDP['B'])
br.advance(0.2)
from sippy.CCEvents import CCEventInfo
n0 = len(br.w.sent)
A.req('INFO', cseq=150)
br.advance(0.2)
A.req('INFO', cseq=150)
br.advance(0.2)
infos = {Msg(s[1]).branch for s in br.w.sent[n0:] if s[1].startswith('INFO ')}
assert len(infos) == 1, '%d INFOs passed on' % len(infos)
'''
NOTE = 'caught after strengthening (stale requests)'
