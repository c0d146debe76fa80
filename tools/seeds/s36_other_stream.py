PROPERTY = 'C40'
NEEDS = 'a prompt played on a second stream before the relay knows the other side of it'
BREAKS = 'the other side is set up for the first stream only, so the prompt starts on a stream that is not complete'
EDITS = [('sippy/Rtp_proxy/Session/side.py', '''            up.index = index
            up.result_callback = partial(self.__play, prompt_name, times, result_callback, index)
''', '''            up.result_callback = partial(self.__play, prompt_name, times, result_callback, index)
''')]
HELPERS = ()
DEMO = '''
from sippy.Rtp_proxy.session import Rtp_proxy_session
from sippy.MsgBody import MsgBody
class Relay:
    online, is_local, sbind_supported, tnot_supported = True, False, False, False
    proxy_address, notify_socket = '192.0.2.9', None
    def __init__(self):
        self.sent = []
    def send_command(self, command, cb=None, *a):
        self.sent.append(command)
        if cb is not None:
            cb('5000' if command[0] == 'U' else '0', *a)
r = Relay()
s = Rtp_proxy_session({'rtp_proxy_client': r}, 'cid', 'ft', 'tt')
b = 'v=0\\r\\no=- 1 1 IN IP4 10.1.1.1\\r\\ns=-\\r\\nt=0 0\\r\\n' + ''.join('m=audio %d RTP/AVP 0\\r\\nc=IN IP4 10.1.1.1\\r\\n' % p for p in (4000, 4002))
s.on_caller_sdp_change(MsgBody(b), lambda b, ex=None: None)
r.sent.clear()
res = []
s.play_caller('hello', 1, res.append, 1)
assert [c.split()[:2] for c in r.sent] == [['U', 'cid-1'], ['P1', 'cid-1']] and res == ['0'], (r.sent, res)
'''
