"""Tiny independent SIP reader/writer used by harness peers and oracles."""

COMPACT = {'v': 'via', 'f': 'from', 't': 'to', 'i': 'call-id', 'm': 'contact', 'l': 'content-length',
           'c': 'content-type', 'e': 'content-encoding', 'k': 'supported', 's': 'subject', 'r': 'refer-to', 'b': 'referred-by'}


class Msg:
    __slots__ = ('sl', 'h', 'body', 'raw', 'is_req', 'method', 'ruri', 'code', 'reason')

    def __init__(self, raw):
        self.raw = raw
        head, sep, body = raw.partition('\r\n\r\n')
        self.body = body
        lines = head.split('\r\n')
        self.sl = lines[0]
        self.h = []
        for l in lines[1:]:
            n, _, v = l.partition(':')
            n = n.strip().lower()
            self.h.append((COMPACT.get(n, n), v.strip()))
        p = self.sl.split(' ', 2)
        if self.sl.startswith('SIP/2.0'):
            self.is_req = False
            self.code = int(p[1])
            self.reason = p[2] if len(p) > 2 else ''
            self.method = self.cseq[1]
            self.ruri = None
        else:
            self.is_req = True
            self.method, self.ruri = p[0], p[1]
            self.code = None
            self.reason = None

    def all(self, name):
        return [v for n, v in self.h if n == name]

    def get(self, name, default=None):
        for n, v in self.h:
            if n == name:
                return v
        return default

    @property
    def cseq(self):
        a, b = self.get('cseq').split()
        return int(a), b

    @property
    def branch(self):
        return param(self.get('via'), 'branch')

    @property
    def cid(self):
        return self.get('call-id')

    @property
    def ftag(self):
        return tag(self.get('from'))

    @property
    def ttag(self):
        return tag(self.get('to'))

    def __repr__(self):
        return '<%s>' % self.sl


def param(v, name):
    # parameters after the first '>' if any
    s = v
    if '>' in s:
        s = s[s.index('>') + 1:]
    for p in s.split(';')[1:] if '>' not in v else s.split(';'):
        k, _, x = p.strip().partition('=')
        if k == name:
            return x
    return None


def tag(v):
    return param(v, 'tag')


def uri(v):
    if '<' in v:
        return v[v.index('<') + 1:v.index('>')]
    return v.split(';')[0].strip()


def build(sl, headers, body=''):
    s = sl + '\r\n'
    for n, v in headers:
        s += '%s: %s\r\n' % (n, v)
    s += 'Content-Length: %d\r\n\r\n' % len(body.encode('utf-8'))
    return s + body


def request(method, ruri, frm, to, cid, cseq, via_host, branch, contact=None, extra=(), body='', ctype='application/sdp', mf=70, vias=None):
    h = []
    if vias is None:
        h.append(('Via', 'SIP/2.0/UDP %s;branch=%s' % (via_host, branch)))
    else:
        h.extend(('Via', v) for v in vias)
    if mf is not None:
        h.append(('Max-Forwards', str(mf)))
    h += [('From', frm), ('To', to), ('Call-ID', cid), ('CSeq', '%d %s' % (cseq, method))]
    if contact:
        h.append(('Contact', contact))
    h.extend(extra)
    if body:
        h.append(('Content-Type', ctype))
    return build('%s %s SIP/2.0' % (method, ruri), h, body)


def response(req, code, reason, to_tag=None, contact=None, extra=(), body='', ctype='application/sdp', rr=True):
    """Answer a parsed request (Msg)."""
    h = [('Via', v) for v in req.all('via')]
    if rr:
        h += [('Record-Route', v) for v in req.all('record-route')]
    h.append(('From', req.get('from')))
    to = req.get('to')
    if to_tag and tag(to) is None:
        to = to + ';tag=' + to_tag
    h += [('To', to), ('Call-ID', req.cid), ('CSeq', req.get('cseq'))]
    if contact:
        h.append(('Contact', contact))
    h.extend(extra)
    if body:
        h.append(('Content-Type', ctype))
    return build('SIP/2.0 %d %s' % (code, reason), h, body)


def sdp(host='10.0.0.2', port=8000, ver=1, pts=(0, 8), extra='', sess='-'):
    s = 'v=0\r\no=- 1 %d IN IP4 %s\r\ns=%s\r\nc=IN IP4 %s\r\nt=0 0\r\n' % (ver, host, sess, host)
    s += 'm=audio %d RTP/AVP %s\r\n' % (port, ' '.join(str(p) for p in pts))
    for p in pts:
        s += 'a=rtpmap:%d X%d/8000\r\n' % (p, p)
    return s + extra
