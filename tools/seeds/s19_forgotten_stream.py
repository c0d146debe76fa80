PROPERTY = 'C17'
NEEDS = 'a session with two streams changed mid-call to have just one, and then released'
BREAKS = 'the relay session of the dropped stream is never deleted'
EDITS = [('sippy/Rtp_proxy/Session/side.py', '''        up.rtpps.max_index = max(up.rtpps.max_index, up.index)
''', '''        up.rtpps.max_index = up.index
''')]
DEMO = '''
from functools import partial
import gc as _gc
from sippy.Rtp_proxy.session import Rtp_proxy_session
from sippy.MsgBody import MsgBody
cmds = []
class RC:
    online = True; active_sessions = 0; is_local = False
    sbind_supported = tnot_supported = wdnt_supported = False
    notify_socket = None
    proxy_address = '192.0.2.8'
    def send_command(self, command, cb=None, *p):
        cmds.append(str(command))
        if cb is not None:
            cb('4000 192.0.2.8' if str(command)[0] == 'U' else '0', *p)
s = Rtp_proxy_session({'_rtp_proxy_clients': [RC()]}, call_id='cid', from_tag='a', to_tag='b')
def body(n):
    b = MsgBody('v=0\\r\\no=- 1 %d IN IP4 198.51.100.1\\r\\ns=-\\r\\nt=0 0\\r\\n' % (9 - n) + ''.join('m=audio 900%d RTP/AVP 0\\r\\nc=IN IP4 198.51.100.1\\r\\n' % i for i in range(n)))
    return b
done = []
for n in (2, 1):
    s.on_caller_sdp_change(body(n), lambda b, ex=None: done.append(b))
assert len(done) == 2, done
s.delete()
dele = sorted(c.split()[1] for c in cmds if c.startswith('D'))
assert dele == ['cid-0', 'cid-1'], cmds
'''
HELPERS = ()
