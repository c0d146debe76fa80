"""C23: messages and headers of an enumerated grammar through the real parser, printer and copier, judged by an independent reader
of what was put in and what comes out; every edit of an original or a copy must leave the other one alone."""
from common import *
import re
from sippy.SipRequest import SipRequest
from sippy.SipResponse import SipResponse
from sippy.SipHeader import SipHeader
from sippy.SipConf import SipConf
from sippy.SipURL import SipURL
from sippy.SipAddress import SipAddress
from sippy.MsgBody import MsgBody
from sippy.SipContentType import SipContentType
from sippy.ESipHeaderCSV import ESipHeaderCSV
import importlib

# ---------------------------------------------------------------- an independent reader
COMPACT = {'v': 'via', 'f': 'from', 't': 'to', 'i': 'call-id', 'm': 'contact', 'l': 'content-length', 'c': 'content-type', 'r': 'refer-to', 'k': 'supported', 'h323-conf-id': 'cisco-guid'}
ADDR = ('from', 'to', 'contact', 'route', 'record-route', 'diversion', 'cc-diversion', 'also', 'refer-to', 'referred-by', 'p-asserted-identity', 'path')
LISTS = ADDR + ('via', 'reason')
NUM = ('max-forwards', 'expires', 'rseq', 'content-length')


class Bad(Exception):
    pass


def pieces(s, sep, angle=False):
    """split at sep outside of quoted strings and <>"""
    out, cur, i = [], '', 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            if j >= len(s):
                raise Bad('quote not closed in %r' % s)
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == '<' and angle:
            j = s.find('>', i)
            if j < 0:
                raise Bad('< not closed in %r' % s)
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == sep:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    return out + [cur]


def unq(v):
    """the meaning of a token or quoted string"""
    if v is not None and v[:1] == '"':
        if len(v) < 2 or v[-1] != '"':
            raise Bad('bad quoted string %r' % v)
        return re.sub(r'\\(.)', r'\1', v[1:-1])
    return v


def params(s):
    r = []
    for p in pieces(s, ';'):
        n, e, v = p.partition('=')
        if n.strip() or e:
            r.append((n.strip(), v.strip() if e else None))
    return r


def unesc(s):
    return bytes(re.sub(rb'%([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode()))


def uri(s):
    scheme, c, rest = s.partition(':')
    if not c or scheme.lower() not in ('sip', 'sips') or re.search(r'[\s<>"]', s):
        raise Bad('bad URI %r' % s)
    user, at, hp = rest.rpartition('@') if '@' in rest else ('', '', rest)
    if at:
        up, c, pw = user.partition(':')
        us = up.split(';')
        usr = (unesc(us[0]), tuple(sorted(us[1:])), pw if c else None)
    else:
        usr = None
    hp, q, hd = hp.partition('?')
    ps = hp.split(';')
    m = re.match(r'(\[[0-9A-Fa-f:.]+\]|[A-Za-z0-9.-]+)(?::(\d+))?$', ps[0])
    if not m:
        raise Bad('bad host in URI %r' % s)
    pr = []
    for p in ps[1:]:
        n, e, v = p.partition('=')
        pr.append((n, None if n == 'lr' or not e else v))
    hdr = []
    for h in hd.split('&') if q else []:
        n, e, v = h.partition('=')
        hdr.append((unesc(n), unesc(v)))
    return (scheme.lower(), usr, m.group(1), int(m.group(2)) if m.group(2) else None, tuple(sorted(pr, key=str)), tuple(sorted(hdr)))


TOKEN = re.compile(r"[A-Za-z0-9.!%*_+`'~-]+$")


def addr(s):
    s = s.strip()
    if s == '*':
        return '*'
    if '<' in re.sub(r'"(?:[^"\\]|\\.)*"', '', s):
        m = re.match(r'("(?:[^"\\]|\\.)*"\s*|[^<"]*)<([^>]*)>\s*(;.*)?$', s, re.S)
        if not m:
            raise Bad('bad address %r' % s)
        n = m.group(1).strip()
        if n[:1] == '"':
            n = unq(n)
        else:
            for t in n.split():
                if not TOKEN.match(t):
                    raise Bad('display name %r is not quoted in %r' % (n, s))
            n = ' '.join(n.split())
        return (n, uri(m.group(2).strip()), tuple((k, unq(v) if k != 'tag' else v) for k, v in params(m.group(3) or '')))
    u, _, p = s.partition(';')
    if '?' in u or ',' in u:
        raise Bad('bare URI needs <>: %r' % s)
    return ('', uri(u.strip()), tuple((k, unq(v)) for k, v in params(p)))


def value(name, v):
    """meaning of one value"""
    v = v.strip()
    if name in ADDR:
        return addr(v)
    if name == 'via':
        m = re.match(r'([^/\s]+)\s*/\s*([^/\s]+)\s*/\s*(\S+)\s+([^;]+)(;.*)?$', v, re.S)
        if not m:
            raise Bad('bad Via %r' % v)
        h = re.match(r'(\[[0-9A-Fa-f:.]+\]|[A-Za-z0-9.-]+)\s*(?::\s*(\d+))?$', m.group(4).strip())
        if not h:
            raise Bad('bad sent-by %r' % v)
        return (m.group(1), m.group(2), m.group(3), h.group(1), int(h.group(2)) if h.group(2) else None, tuple((k, unq(x)) for k, x in params(m.group(5) or '')))
    if name == 'cseq':
        n, m = v.split()
        return (int(n), m)
    if name == 'rack':
        a, b, m = v.split()
        return (int(a), int(b), m)
    if name in NUM:
        return int(v)
    if name == 'reason':
        p, _, r = v.partition(';')
        return (p.strip(), tuple(sorted((k, int(x) if k == 'cause' else unq(x)) for k, x in params(r))))
    if name == 'warning':
        c, a, t = v.split(None, 2)
        return (int(c), a, unq(t.strip()) if len(pieces(t, ',')) == 1 else t)
    if name == 'replaces':
        p, _, r = v.partition(';')
        return (p.strip(), tuple(sorted(params(r), key=str)))
    if name == 'content-type':
        p, _, r = v.partition(';')
        return (p.strip(), tuple((k, unq(x)) for k, x in params(r)))
    if name in ('www-authenticate', 'proxy-authenticate', 'authorization', 'proxy-authorization'):
        s, _, r = v.partition(' ')
        d = []
        for p in pieces(r, ','):
            n, e, x = p.partition('=')
            if not e:
                raise Bad('bad parameter %r in %r' % (p, v))
            x = unq(x.strip())
            d.append((n.strip(), tuple(y.strip() for y in x.split(',')) if n.strip() == 'qop' else x))
        return (s, tuple(sorted(d, key=str)))
    if name in ('allow', 'supported'):
        return tuple(x.strip() for x in v.split(','))
    if name == 'cisco-guid':
        return tuple(int(x) for x in v.split('-'))
    return v


def values(name, v):
    if name in LISTS:
        return [value(name, x) for x in pieces(v, ',', angle=True)]
    return [value(name, v)]


class Read(object):
    def __init__(self, text, strict=True):
        raw = text.encode()
        head, sep, body = raw.partition(b'\r\n\r\n')
        need(sep, 'no empty line in %r', text)
        self.lines = re.sub(r'\r\n[ \t]+', ' ', head.decode()).split('\r\n')
        sl = self.lines[0].split(' ', 2)
        if sl[0].startswith('SIP/'):
            self.sl = (sl[0], int(sl[1]), sl[2])
        else:
            self.sl = (sl[0], uri(sl[1]), sl[2])
        self.h, self.ct, self.cl = [], None, None
        for l in self.lines[1:]:
            n, c, v = l.partition(':')
            n = n.strip().lower()
            if not c or not TOKEN.match(n) or '\r' in l or '\n' in l:
                raise Bad('bad header line %r' % l)
            n = COMPACT.get(n, n)
            if n == 'content-length':
                if self.cl is not None:
                    raise Bad('two Content-Length')
                self.cl = int(v)
            elif n == 'content-type':
                if self.ct is not None:
                    raise Bad('two Content-Type')
                self.ct = value(n, v)
            else:
                self.h += [(n, x) for x in values(n, v)]
        if strict:
            need(self.cl == len(body), 'Content-Length is %r for a body of %d octets', self.cl, len(body))
        self.body = body if self.cl is None else body[:self.cl]


def cmpmsg(got, want, what, body=True):
    try:
        g = Read(got)
    except Bad as e:
        raise Violation('%s: %s' % (what, e))
    need(g.sl == want.sl, '%s: start line %r became %r', what, want.sl, g.sl)
    for a, b in zip(g.h, want.h):
        need(a == b, '%s: header %r became %r', what, b, a)
    need(len(g.h) == len(want.h), '%s: headers %r, should be %r', what, [n for n, v in g.h], [n for n, v in want.h])
    need(g.body == want.body, '%s: body %r became %r', what, want.body, g.body)
    if want.body:
        need(g.ct == want.ct or want.ct is None, '%s: Content-Type %r became %r', what, want.ct, g.ct)


def look(msg):
    """everything the code may want to look into"""
    for h in msg.headers:
        h.getBody()
    if msg.body is not None:
        msg.body.parse()


LOCALS = (None, (('192.0.2.77', 5060), 'udp'), (('[2001:db8::77]', 5070), 'tcp'))


def judge(cls, text, want, what, copies=True):
    try:
        m = cls(text)
        forms = [('', m)]
        if copies:
            forms.append(('copy of ', m.getCopy()))
        m2 = cls(text)
        look(m2)
        forms.append(('inspected ', m2))
        if copies:
            c2 = m2.getCopy()
            forms.append(('copy of inspected ', c2))
            c3 = cls(text).getCopy()
            look(c3)
            forms.append(('inspected copy of ', c3.getCopy()))
        for how, x in forms:
            cmpmsg(str(x), want, how + what)
            for la in LOCALS:
                for compact in (False, True):
                    cmpmsg(x.localStr(la, compact), want, how + what + ' (localStr %r %r)' % (la, compact))
        if copies:
            need(str(m2) == str(c2), '%s: a copy prints differently: %r %r', what, str(m2), str(c2))
        again = cls(str(m2))
        look(again)
        cmpmsg(str(again), want, what + ' parsed again')
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s: %s: %s raised for %r' % (what, type(e).__name__, e, text))
    return m2


# ---------------------------------------------------------------- grammar
URIS = ['sip:bob@example.com', 'sip:example.com', 'sip:bob@10.0.0.1:5070', 'sip:[2001:db8::1]', 'sip:bob@[2001:db8::1]:5060;transport=tcp', 'sips:bob@biloxi.com:5061', 'SIP:Bob@Host', 'sip:alice:secret@a.com',
        'sip:+1-212;ext=5:pw@gw;user=phone', 'sip:a;day=tue;x@h', 'sip:x@h;lr', 'sip:x@h;lr=on;foo=bar;baz', 'sip:x@h;transport=TCP;ttl=15;maddr=239.255.255.1', 'sip:x@h;method=INVITE;tag=t1;user=ip;z',
        'sip:h.com;method=REGISTER?to=a%40b', 'sip:x@h?subject=a%20b&priority=urgent&x=', 'sip:x@h:5060;lr?Route=%3Csip:y@z;lr%3E', 'sip:%61bc%20d@h', 'sip:a%40b%3Ac@h', 'sip:100%25@h', 'sip:j%C3%BCrgen@h', 'sip:a/b?c@h', 'sip:x@h:65535',
        "sip:-_.!~*'()&=+$,@h", 'sip:%22q%22%3Ce%3E@h', 'sip:x:p%20w@h', 'sips:[::1]:1;x=1']
NAMES = ['', 'Bob', 'Bob Blow ', '"Bob"', '"Doe, John"', '"a<b>c"', '"a<b"', '"a>b"', '"say \\"hi\\", x"', '"back\\\\"', '"\\\\\\" <sip:no@no>"', '"semi;colon=1"', '"J\xfcrgen"', '"\u65e5\u672c"', '" sp "', '""', "O'N*+.%!_`~-", '"@:/sip:x"', '"x\\y"', '"a"  ',
         '"u\u2028v\x85w"']
PARS = ['', ';tag=abc', ';x', ';x=1;y=2;z', ' ; tag = a ', ';x="a;b,c"', ';x="q\\"<>"', ';expires=60;q=0.5;+sip.instance="<urn:uuid:1>"', ';a=1;x;b=[::1]', ';x="";y']
VIAS = ['SIP/2.0/UDP 10.0.0.1', 'SIP/2.0/UDP 10.0.0.1:5061;branch=z9hG4bK1', 'SIP/2.0/TCP [2001:db8::1]', 'SIP/2.0/TLS [2001:db8::1]:5062;branch=z9;rport', 'SIP / 2.0 / UDP host.com ; branch = z9hG4bK2 ; x', 'SIP/2.0/SCTP h : 5060;received=1.2.3.4;rport=7',
        'SIP/2.0/UDP h;received=2001:db8::9;maddr=m;ttl=3;x="a;b"', 'SIP/2.0/UDP h;x="a,b";y', 'SIP/2.0/WSS x.invalid;branch=z9hG4bK3;keep', 'SIP/2.0/UDP\th:1', 'SIP/3.7/xyz h']
VALS = {
    'via': VIAS,
    'cseq': ['1 INVITE', '4711   INVITE', '2147483647 INVITE', '0 INVITE', '009 INVITE'],
    'max-forwards': ['70', '0', '255', '007'], 'expires': ['0', '300', '4294967295'], 'rseq': ['1', '988789'], 'rack': ['1 2 INVITE', '776656  1  PRACK'],
    'call-id': ['a@b', 'f81d4fae-7dec', 'w!%*_+`\'~()<>:\\"/[]?{}@x', '0'],
    'reason': ['SIP;cause=200;text="Call completed elsewhere"', 'Q.850;cause=16', 'Q.850 ;cause=16 ; text = "Norm; \\"al\\", x"', 'SIP; cause=600', 'Q.850;cause=21;location=LN;text=Busy', 'Q.850;text="x";cause=1;y', 'SIP;cause=1;text=""', 'SIP;cause=580;text="a\\\\"'],
    'warning': ['399 host "text"', '301 isi.edu:5060 "a, \\"b\\" c"', '307 [::1]:1 "\\"q\\""', '300 h "x", 301 g "y"', '301 a ""', '399 h "\xe9"'],
    'replaces': ['a@b;from-tag=x;to-tag=y', 'a@b;to-tag=y;from-tag=x;early-only', 'a@b ; from-tag = x ; to-tag=y;z=1;w'],
    'www-authenticate': ['Digest realm="a.com",nonce="84a4",algorithm=MD5', 'Digest realm="a b, c=d", nonce="x==", qop="auth,auth-int", opaque="o", stale=FALSE, algorithm=SHA-256', 'Digest  nonce="n",domain="sip:a sip:b",realm="",qop="auth"', 'Digest realm="r",nonce="n",x-y="1,2",z="3"'],
    'authorization': ['Digest username="bob",realm="a.com",nonce="84a4",uri="sip:x@y;a=b",response="245f"', 'Digest username="b, c=d", realm="r", nonce="n==", uri="sip:z", response="r", algorithm=SHA-256, cnonce="c", opaque="o", qop=auth, nc=00000001', 'Digest  nonce="n",username="",realm="x",uri="/",response="e",z=3,w="4,5"'],
    'allow': ['INVITE', 'INVITE, ACK,BYE , CANCEL', ''], 'supported': ['100rel', 'timer, replaces', ''],
    'server': ['Sippy', 'A/1.0 (b; c, "d")', '\u65e5'], 'user-agent': ['x', 'Y/2 "z" <e>'],
    'cisco-guid': ['1-2-3-4', '4294967295-0-10-20'],
    'subject': ['hello, world; x="1"', '', 'a:b', 'caf\xe9 \u65e5', 'x\x0by\x85z\u2028'], 'x-foo': ['<sip:a>,<sip:b>', '"', ' "a'], 'event': ['dialog;id=1'], 'accept': ['application/sdp;q=0.5, text/*'],
    'date': ['Sat, 13 Nov 2010 23:29:00 GMT'], 'require': ['100rel, timer'], 'p-charging-vector': ['icid-value="a;b";x=1'],
}
VALS['proxy-authenticate'], VALS['proxy-authorization'] = VALS['www-authenticate'], VALS['authorization']
SHORT = dict((v, k) for k, v in COMPACT.items())
BASE = [('Via', 'SIP/2.0/UDP 10.1.1.1:5060;branch=z9hG4bKx'), ('Max-Forwards', '70'), ('From', '"A" <sip:a@b>;tag=1'), ('To', '<sip:c@d>'), ('Call-ID', 'x@y'), ('CSeq', '1 INVITE')]
SDP = 'v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 10 RTP/AVP 0\r\n'


def text(sl, headers, body='', cl=True):
    h = ''.join('%s: %s\r\n' % x for x in headers)
    if cl:
        h += 'Content-Length: %d\r\n' % len(body.encode())
    return sl + '\r\n' + h + '\r\n' + body


def put(headers):
    """BASE with these ones in place of or after those of the same name"""
    n = [COMPACT.get(h[0].lower(), h[0].lower()) for h in headers]
    return [h for h in BASE if h[0].lower() not in n] + headers


def names_of(h):
    r = [h, h.upper(), h.title()]
    if h in SHORT:
        r += [SHORT[h], SHORT[h].upper()]
    return r


def scen_values(ch, ctx, cfg):
    """each header with each form of each value"""
    h = ch.pick(cfg['headers'])
    if h in ADDR:
        vs = [n + ' <' + u + '>' + p for n in NAMES for u, p in ((URIS[4], PARS[3]), (URIS[0], PARS[0]))]
        vs += [n + '<' + u + '>' + p for n in NAMES[:5:4] for u in URIS for p in PARS]
        vs += [u + p for u in URIS if not re.search(r'[;?,]', u) for p in PARS]
        if cfg.get('full'):
            vs += [n + ' <' + u + '>' + p for n in NAMES for u in URIS for p in PARS]
        if h == 'contact':
            vs.append('*')
    else:
        vs = VALS[h]
    nm = ch.pick(names_of(h))
    sep = ch.pick([': ', ':', ' : ', ':  ']) if nm == h else ': '
    lo = 0
    for v in vs if nm == h and sep == ': ' else vs[::7] if len(vs) > 30 else vs:
        t = text('INVITE sip:x@y SIP/2.0', put([(nm, v)])).replace(nm + ': ' + v, nm + sep + v)
        try:
            want = Read(t)
        except Bad as e:
            raise AssertionError('grammar: %s' % e)
        judge(SipRequest, t, want, '%s: %s' % (nm, v), copies=nm == h)
        if h not in ('via', 'from', 'to', 'call-id', 'cseq', 'max-forwards') and nm == h and sep == ': ':
            hd = SipHeader(nm + ': ' + v) if v != '' and len(values(h, v)) == 1 else None
            if hd is not None:
                for k in (0, 1):
                    s1, s2 = str(hd), str(hd.getCopy())
                    need(s1 == s2, 'header %r: its copy prints %r', s1, s2)
                    need(values(h, s1.partition(':')[2]) == values(h, v), 'header %r printed as %r', v, s1)
                    hd.getBody()
        ctx.step(nm + sep, (h, v))
    ctx.outcome = h


def scen_ruri(ch, ctx, cfg):
    u = ch.pick(URIS)
    m = ch.pick(['INVITE', 'OPTIONS', 'X-foo.!'])
    t = text('%s %s SIP/2.0' % (m, u), BASE[:-1] + [('CSeq', '1 ' + m)])
    msg = judge(SipRequest, t, Read(t), 'request to ' + u)
    need(msg.getMethod() == m, 'method')
    c = SipURL(u).getCopy()
    need(uri(str(c)) == uri(u) and uri(SipURL(u).localStr((('9.9.9.9', 1), 'tcp'))) == uri(u), 'copy of %s is %s', u, c)
    ctx.step(m, u)
    ctx.outcome = 'ok'


def unq2(s):
    import urllib.parse
    return urllib.parse.unquote(s)


def scen_tel(ch, ctx, cfg):
    """tel: addresses turned into sip: ones when configured so, refused otherwise"""
    on = ch.choose(2) == 0
    num = ch.pick(['+1-201-555', '911', '%23123*', '+1(2)', 'a b'.replace(' ', '%20')])
    ps = [ch.pick([(), ('npdi',), ('rn=+1202', 'npdi'), ('phone-context=+1',), ('Ext=a%20b',), ('isub=1=2',)])]
    where = ch.pick(['ruri', 'from', 'from bare', 'contact', 'to name', 'url'])
    u = ''.join(';' + p for p in ps[0])
    tel = ch.pick(['tel:', 'TEL:']) + num + ('' if where == 'from bare' else u)
    h = dict(BASE)
    t = dict((('ruri', ('sip:x@y', None)), ('from', (None, ('From', '<%s>;tag=1' % tel))), ('from bare', (None, ('From', '%s;tag=1' % tel))), ('contact', (None, ('Contact', '"a" <%s>;q=0.5' % tel))), ('to name', (None, ('To', 'Bob <%s>' % tel)))))
    saved = SipConf.autoconvert_tel_url
    SipConf.autoconvert_tel_url = on
    ctx.step('tel', (on, tel, where))
    try:
        try:
            if where == 'url':
                got = SipURL(tel)
            else:
                b = [(k, v) for k, v in BASE if not (t[where][1] and t[where][1][0] == k)] + ([t[where][1]] if where != 'ruri' else [])
                m = SipRequest(text('INVITE %s SIP/2.0' % (tel if where == 'ruri' else 'sip:x@y'), b))
                got = m.getRURI() if where == 'ruri' else m.getHFBody(where.split()[0]).getUri()
                if where != 'ruri':
                    got = got.url
        except Exception as e:
            need(not on and isinstance(e, ValueError), 'tel address %s refused: %r', tel, e)
            ctx.outcome = 'refused'
            return
        need(on, '%s accepted', tel)
        for g in (got, got.getCopy()):
            p = str(g)
            need(p.startswith('sip:'), '%s became %s', tel, p)
            r = uri(p)
            back = p[4:].rpartition('@')[0].split(';')
            need(unq2(back[0]) == unq2(num), '%s became %s', tel, p)
            need([x.partition('=')[1:] for x in back[1:]] == [x.partition('=')[1:] for x in (ps[0] if where != 'from bare' else ())] and [x.partition('=')[0] for x in back[1:]] == [x.partition('=')[0].lower() for x in (ps[0] if where != 'from bare' else ())], '%s became %s', tel, p)
            need(p.rpartition('@')[2].rpartition(':')[0] == str(SipConf.my_address), '%s became %s', tel, p)
        ctx.outcome = 'ok'
    finally:
        SipConf.autoconvert_tel_url = saved


def scen_status(ch, ctx, cfg):
    code = ch.pick([100, 180, 183, 200, 299, 302, 404, 486, 503, 699])
    reason = ch.pick(['OK', 'Not  Acceptable: "Here"', '\u0416 \xe9', '200', 'a' * 80])
    body = ch.pick(['', SDP])
    if not 100 < code < 400:
        body = ''
    t = text('SIP/2.0 %d %s' % (code, reason), BASE + [('Server', 'x')] + ([('Content-Type', 'application/sdp')] if body else []), body)
    msg = judge(SipResponse, t, Read(t), 'response %d' % code)
    need(msg.getSCode() == (code, reason), 'response %d reads %r', code, msg.getSCode())
    ctx.step('status', (code, reason, body))
    ctx.outcome = 'ok'


PICK = [('Via', 'SIP/2.0/TCP h2;branch=z9hG4bK7;x="1,2"'), ('Contact', '"a, b" <sip:x@y?c=d>;q=1'), ('Contact', 'sip:m@n'), ('Route', '"R \\"x\\"" <sip:p1;lr>'), ('Route', '<sip:p2:5061;lr;x=1>;y'), ('Record-Route', '<sip:rr;lr>'), ('Subject', 'hi'),
        ('X-Y', '1,2'), ('Reason', 'Q.850;cause=16;text="a, b"'), ('Diversion', '<sip:d@e>;reason=unknown'), ('Warning', '399 h "t"'), ('Supported', 'a, b'), ('Allow', 'X'), ('Via', 'SIP/2.0/UDP h3')]


def scen_order(ch, ctx, cfg):
    """lists of headers, in separate lines or comma-joined, folded or not, every order"""
    hs = []
    last = None
    for k in range(cfg['n']):
        i = ch.choose(len(PICK))
        hs.append(PICK[i])
    lines = []
    for n, v in hs:
        if lines and lines[-1][0].lower() == n.lower() and n.lower() in LISTS:
            j = ch.choose(3)
            if j:
                lines[-1] = (lines[-1][0], lines[-1][1] + [', ', ','][j - 1] + v)
                continue
        lines.append((n, v))
    pos = ch.choose(2)
    H = lines + BASE if pos else BASE[:3] + lines + BASE[3:]
    t = text('INVITE sip:x@y SIP/2.0', H)
    want = Read(t)
    if ch.choose(2):
        # folded at every place where white space is allowed
        t = re.sub(r'(?<=[:,]) ', '\r\n  ', t.split('\r\n', 1)[0] + '\r\n' + t.split('\r\n', 1)[1]) if False else '\r\n'.join(l.replace(': ', ':\r\n\t ', 1) if 0 < i < len(lines) + 8 and l[:1] not in 'L' else l for i, l in enumerate(t.split('\r\n')))
        t = t.replace(', ', ',\r\n   ')
        want2 = Read(t)
        need(want2.h == want.h or any('"a, b"' in v or '"Doe' in v for n, v in lines), 'harness')
        want = want2
    msg = judge(SipRequest, t, want, 'message with %r' % (lines,))
    need(msg.countHFs('via') == len([1 for n, v in want.h if n == 'via']) and len(msg.getHFs('contact')) == len([1 for n, v in want.h if n == 'contact']), 'number of headers')
    ctx.step('order', t)
    ctx.outcome = 'ok'


MULTI = ('--b1\r\nContent-Type: application/sdp\r\nContent-Disposition: session\r\n\r\n' + SDP + '--b1\r\nContent-ID: <x@y>\r\nContent-Type: text/plain;charset=utf-8\r\n\r\nhall\xe5 \u65e5\r\n--b1--\r\n')
BODIES = [('application/sdp', SDP), ('Application/SDP', SDP.replace('s=-', 's=caf\xe9 \u65e5')), ('application/sdp ; x=y', SDP), ('text/plain', 'hello\r\n\r\nworld'), ('text/plain;charset=utf-8', 'J\xfcrgen \u20ac \U0001f600'), ('text/plain; charset="us-ascii"; x', ' '),
          ('application/dtmf-relay', 'Signal=5\r\nDuration=160\r\n'), ('multipart/mixed;boundary=b1', MULTI), ('multipart/mixed; boundary="b1"', MULTI), ('multipart/mixed ; boundary = "=b 1?"; x=1', MULTI.replace('--b1', '--=b 1?')), ('message/sipfrag', 'SIP/2.0 200 OK\r\n'),
          ('application/x', 'v=0'), ('application/pidf+xml', '<?xml?>\n<x>\n\n</x>\r\n\r\n'), (None, SDP), ('text/plain', '\x0b\x85\u2028')]


def readmulti(b, boundary):
    ps = b.split('--' + boundary)
    need(ps[0] == '' and ps[-1].strip() == '--', 'multipart body %r', b)
    r = []
    for p in ps[1:-1]:
        h, s, c = p.partition('\r\n\r\n')
        hs = dict((l.partition(':')[0].strip().lower(), l.partition(':')[2].strip()) for l in h.strip().split('\r\n') if l)
        r.append((sorted(hs.items()), c))
    return r


def scen_body(ch, ctx, cfg):
    ct, body = ch.pick(BODIES)
    cl = ch.choose(4)       # exact, absent, trailing octets, compact names
    kind = ch.pick([('INVITE sip:x@y SIP/2.0', SipRequest), ('SIP/2.0 200 OK', SipResponse), ('SIP/2.0 183 x', SipResponse), ('SIP/2.0 302 x', SipResponse)])
    H = BASE + ([('Content-Type', ct)] if ct else [])
    if cl == 3:
        H = BASE[:2] + ([('c', ct)] if ct else []) + [('l', str(len(body.encode())))] + BASE[2:]
    t = text(kind[0], H, body, cl in (0, 2)) + ('junk\r\n' if cl == 2 else '')
    want = Read(t, strict=False)
    what = 'body of type %s' % ct
    try:
        m = kind[1](t)
        m2 = kind[1](t)
        look(m2)
        forms = [('', m), ('copy of ', m.getCopy()), ('inspected ', m2), ('copy of inspected ', m2.getCopy())]
        c = m.getCopy()
        look(c)
        forms += [('inspected copy of ', c), ('copy of inspected copy of ', c.getCopy())]
    except Exception as e:
        raise Violation('%s: %s: %s raised' % (what, type(e).__name__, e))
    for how, x in forms:
        outs = [str(x)] + [x.localStr(la, k) for la in LOCALS for k in (False, True)]
        for o in outs:
            try:
                g = Read(o)
            except Bad as e:
                raise Violation('%s%s: %s' % (how, what, e))
            need(g.sl == want.sl and g.h == want.h, '%s%s: headers changed', how, what)
            if ct is None:
                need(g.ct == ('application/sdp', ()), '%s%s: type %r', how, what, g.ct)
            elif ct.lower().startswith('multipart'):
                need(g.ct == want.ct, '%s%s: type %r became %r', how, what, want.ct, g.ct)
                bd = dict(want.ct[1])['boundary']
                a, b = readmulti(g.body.decode(), bd), readmulti(want.body.decode(), bd)
                need(a == b, '%s%s: parts became %r', how, what, a)
                continue
            else:
                need(g.ct == want.ct, '%s%s: type %r became %r', how, what, want.ct, g.ct)
            need(g.body == want.body, '%s%s: became %r', how, what, g.body)
    ctx.step('body', (ct, body, cl, kind[0]))
    ctx.outcome = 'ok'


# ---------------------------------------------------------------- copies are independent
def edits(h, b):
    """public ways to change a header body"""
    E = []
    if h in ADDR and not getattr(b, 'asterisk', False):
        a, u = b.address, b.address.url
        E = [lambda b: b.address.setParam('zz', '1'), lambda b: setattr(b.address, 'name', 'Other'), lambda b: setattr(b.address.url, 'host', 'other.host'), lambda b: setattr(b.address.url, 'username', 'ou'), lambda b: setattr(b.address.url, 'port', 999),
             lambda b: b.address.url.other.append('zz'), lambda b: b.address.url.userparams.append('zz=1'), lambda b: b.address.url.setParams(['lr', 'x=1', 'transport=sctp']), lambda b: setattr(b.address.url, 'lr', not b.address.url.lr), lambda b: b.address.url.setAddr(('q.w', 77)),
             lambda b: b.setBody(SipAddress('<sip:new@one>'))]
        if u.username is None:
            E = [e for i, e in enumerate(E) if i != 6]
        if u.headers:
            E.append(lambda b: b.address.url.headers.__setitem__('zz', '1'))
        if a.params:
            E += [lambda b: b.address.delParam(list(b.address.params)[0]), lambda b: b.address.setParam(list(b.address.params)[-1], 'chg')]
        if hasattr(b, 'genTag'):
            E += [lambda b: b.genTag(), lambda b: b.setTag('nt')]
    elif h == 'via':
        E = [lambda b: b.genBranch(), lambda b: b.setParam('received', '9.9.9.8'), lambda b: b.params.__setitem__('rport', '1'), lambda b: setattr(b, 'hostname', 'hh'), lambda b: setattr(b, 'port', 1234), lambda b: b.params.clear() or b.setParam('only'), lambda b: setattr(b, 'transport', 'ZZZ')]
    elif h in ('cseq', 'rack'):
        E = [lambda b: b.incCSeqNum(), lambda b: setattr(b, 'method', 'ZZ')]
    elif h in NUM:
        E = [lambda b: b.incNum(), lambda b: setattr(b, 'number', 12345)]
    elif h == 'allow':
        E = [lambda b: b.methods.append('ZZ'), lambda b: b.methods.__setitem__(0, 'YY')]
    elif h == 'supported':
        E = [lambda b: b.caps.append('ZZ'), lambda b: b.caps.__setitem__(0, 'YY')]
    elif h == 'replaces':
        E = [lambda b: b.params.append('zz'), lambda b: setattr(b, 'early_only', not b.early_only), lambda b: setattr(b, 'call_id', 'zz'), lambda b: setattr(b, 'to_tag', 'zz'), lambda b: setattr(b, 'from_tag', 'zz')]
    elif h == 'reason':
        E = [lambda b: setattr(b, 'cause', 99), lambda b: setattr(b, 'reason', 'zz'), lambda b: setattr(b, 'protocol', 'zz')]
    elif h == 'warning':
        E = [lambda b: setattr(b, 'code', 398), lambda b: setattr(b, 'text', 'zz'), lambda b: setattr(b, 'agent', 'zz')]
    elif h.endswith('authenticate'):
        E = [lambda b: b.otherparams.append(('zz', '1')), lambda b: setattr(b, 'realm', 'zz'), lambda b: setattr(b, 'nonce', 'zz'), lambda b: setattr(b, 'opaque', 'zz'), lambda b: setattr(b, 'algorithm', 'zz'), lambda b: setattr(b, 'qop', ['zz'])]
        if b.qop:
            E += [lambda b: b.qop.append('zz')]
    elif h.endswith('authorization'):
        E = [lambda b: b.otherparams.append(('zz', '1'))] + [(lambda b, f=f: setattr(b, f, 'zz')) for f in ('username', 'uri', 'realm', 'nonce', 'response', 'algorithm')]
    elif h in ('server', 'user-agent'):
        E = [lambda b: setattr(b, 'name', 'zz')]
    elif h in ('cisco-guid', 'h323-conf-id'):
        E = [lambda b: setattr(b, 'ciscoGUID', (9, 9, 9, 9))]
    elif h in ('subject', 'call-id', 'x-foo'):
        E = [lambda b: setattr(b, 'body', 'zz')]
    return E


def scen_copies(ch, ctx, cfg):
    """every change of one header of an original or its copy shows there and nowhere else"""
    h = ch.pick(cfg['headers'])
    if h in ADDR:
        vs = ['"N" <%s>%s' % (u, p) for u in URIS for p in (PARS[:4] if cfg.get('full') else PARS[:4:3])]
    else:
        vs = [v for v in VALS[h] if v]
    v = ch.pick(vs)
    H = put([(h, v)])
    t = text('INVITE sip:x@y;a?s=1 SIP/2.0', H + [('Content-Type', 'application/sdp')], SDP)
    whole = ch.choose(2)
    n = len(edits(h, (lambda x: x)(SipRequest(t).getHFBody(h if h != 'h323-conf-id' else 'cisco-guid'))))
    hn = h if h != 'h323-conf-id' else 'cisco-guid'
    for i in range(n):
        for pre in (False, True):
            for side in (0, 1):
                m = SipRequest(t)
                m.getHFBody('via')
                if pre:
                    look(m)
                if whole:
                    pair = [m, m.getCopy()]
                else:
                    c = SipRequest(t)
                    c.headers = [x.getCopy() if x.name == hn else x for x in m.headers]
                    pair = [m, c]
                before = [Read(str(x)) for x in pair]
                b = pair[side].getHFBody(hn)
                edits(h, b)[i](b)
                try:
                    after = [Read(str(x)) for x in pair]
                except Bad as e:
                    raise Violation('%s: %s changed (%d): %s' % (h, v, i, e))
                o = 1 - side
                need(after[o].h == before[o].h and after[o].sl == before[o].sl, '%s: %s: changing the %s changed the %s to %r', h, v, ['original', 'copy'][side], ['original', 'copy'][o], [x for x in after[o].h if x not in before[o].h])
                rest = lambda r: [x for x in r.h if x[0] != h and x[0] != hn]
                need(rest(after[side]) == rest(before[side]), '%s: other headers changed', h)
                need(after[side].h != before[side].h, '%s: %s: change %d has no effect', h, v, i)
        ctx.step('edit', (h, v, i))
    ctx.outcome = h


def medits():
    def body(m):
        m.body.parse()
        m.body.content.sections[0].m_header.port = 7

    def body2(m):
        m.body.parse()
        m.body.content.addHeader('a', 'zz')
    E = [('append', lambda m: m.appendHeader(SipHeader('X-New: 1'))), ('remove', lambda m: m.removeHeader(m.getHF('subject'))), ('delete', lambda m: m.delHFs('route')), ('replace', lambda m: m.replaceHeader(m.getHF('subject'), SipHeader('Subject: zz'))),
         ('insert after', lambda m: m.insertHeaderAfter(m.getHF('via'), SipHeader('Via: SIP/2.0/UDP nn'))), ('insert before', lambda m: m.insertHeaderBefore(m.getHF('via'), SipHeader('Via: SIP/2.0/UDP nn'))), ('extend', lambda m: m.appendHeaders([SipHeader('X-New: 1'), SipHeader('X-New: 2')])),
         ('port in the body', body), ('attribute in the body', body2), ('no body', lambda m: m.setBody(None)), ('other body', lambda m: m.setBody(MsgBody('zz', SipContentType('text/x')))), ('route', lambda m: m.getHFBody('route', 1).address.setParam('zz')),
         ('first route', lambda m: m.getHFBody('route').getUrl().setAddr(('zz', 1)))]
    R = [('uri', lambda m: setattr(m.ruri, 'username', 'zz')), ('uri parameter', lambda m: m.ruri.other.append('zz')), ('uri headers', lambda m: m.ruri.headers.__setitem__('zz', '1')), ('other uri', lambda m: m.setRURI(SipURL('sip:zz@zz')))]
    S = [('status', lambda m: m.setSCode(299, 'zz'))]
    return E, R, S


def scen_msgcopies(ch, ctx, cfg):
    E, R, S = medits()
    req = ch.choose(2)
    t = text('INVITE sip:x@y;a?s=1 SIP/2.0' if req else 'SIP/2.0 200 OK', BASE + [('Route', '<sip:r1;lr>, <sip:r2>;q'), ('Subject', 's'), ('Content-Type', 'application/sdp')], SDP)
    cls = SipRequest if req else SipResponse
    m = cls(t)
    if ch.choose(2):
        look(m)
    pair = [m, m.getCopy()]
    if ch.choose(2):
        pair.append(pair[1].getCopy())
    for k in range(cfg['depth']):
        side = ch.choose(len(pair))
        name, e = ch.pick(E + (R if req else S))
        before = [Read(str(x)) for x in pair]
        try:
            e(pair[side])
        except (IndexError, AttributeError):
            if k == 0:
                raise
            raise Prune()
        after = [Read(str(x)) for x in pair]
        sig = lambda r: (r.sl, r.h, r.ct, r.body)
        for i in range(len(pair)):
            if i != side:
                need(sig(after[i]) == sig(before[i]), 'change (%s) of message %d of original and copies also changes message %d', name, side, i)
        need(k > 0 or sig(after[side]) != sig(before[side]), 'change (%s) has no effect', name)
        ctx.step(name, (k, side, str(pair[0]), str(pair[1])))
    ctx.outcome = 'ok'


# ---------------------------------------------------------------- messages built here
def H(mod):
    return getattr(importlib.import_module('sippy.' + mod), mod)


def plain(names=('Bob', 'J\xfcrgen "x" y', 'a, b', 'Sm;=<>', '', None, '123', 'a b')):
    return names


def scen_built(ch, ctx, cfg):
    """what is built prints well-formed, reads back equal, and answers and follow-ups of it do as well"""
    name = ch.pick(plain())
    user = ch.pick(['bob', 'a b', 'j\xfc@x:y', '100%', None])
    body = ch.pick([None, 'sdp', 'text'])
    la = ch.pick(LOCALS)
    compact = bool(ch.choose(2))
    SF, ST, SC, SR = H('SipFrom'), H('SipTo'), H('SipContact'), H('SipRoute')
    url = lambda **k: SipURL(username=user, **k)
    fr = SF(address=SipAddress(name=name, url=url(host='h.com', port=5070)))
    fr.genTag()
    to = ST(address=SipAddress(name=name, url=url(host='[::1]')))
    routes = [SR(address=SipAddress(name=name, url=SipURL(host='r1', lr=True)))] if ch.choose(2) else []
    mine = ch.choose(2)
    contact = SC() if mine else SC(address=SipAddress(name=name, url=url(host='c', transport='tcp', headers={'x': 'c d&e'})))
    ct = SipContentType('text/plain')
    ct.parse()
    b = {None: None, 'sdp': MsgBody(SDP.replace('s=-', 's=\u65e5')), 'text': MsgBody('h\xe9llo', ct)}[body]
    if b is not None:
        b.parse()
    ruri = url(host='dst', port=6000, userparams=['a=b'] if user else None)
    r = SipRequest(method='INVITE', ruri=ruri, to=to, fr0m=fr, cseq=7, contact=contact, routes=routes, body=b, user_agent='UA \u65e5' if ch.choose(2) else None)
    tb = b'' if b is None else str(b).encode()
    msgs = [('request', r), ('ack', r.genACK()), ('cancel', r.genCANCEL())]
    H('SipReason')
    msgs += [('200', r.genResponse(200, 'OK', body=b, server='S')), ('486', r.genResponse(486, 'Busy', ext_reason='all "lines" busy; x, y')), ('100', r.genResponse(100, 'Trying'))]
    my = '127.0.0.1'
    prints = {}
    for what, m in msgs:
        try:
            out = m.localStr(la, compact)
            g = Read(out)
            g0 = Read(str(m))
            back = (SipRequest if what.isalpha() else SipResponse)(out)
            look(back)
            g2 = Read(str(back))
            cp = Read(m.getCopy().localStr(la, compact))
        except Violation:
            raise
        except Exception as e:
            raise Violation('built %s: %s: %s' % (what, type(e).__name__, e))
        for o in (g2, cp):
            need((o.sl, o.h, o.ct, o.body) == (g.sl, g.h, g.ct, g.body), 'built %s reads back as %r %r instead of %r %r', what, o.sl, o.h, g.sl, g.h)
        d = {}
        for n, v in g.h:
            d.setdefault(n, []).append(v)
        U = None if user is None else (user.encode(), (), None)
        need(d['from'] == [(name or '', ('sip', U, 'h.com', 5070, (), ()), (('tag', fr.getTag()),))], 'From of built %s is %r', what, d['from'])
        need(d['to'] == [(name or '', ('sip', U, '[::1]', None, (), ()), ())], 'To of built %s is %r', what, d['to'])
        need([x[1:] for x in d['cseq']] == [({'ack': 'ACK', 'cancel': 'CANCEL'}.get(what, 'INVITE'),)] and d['cseq'][0][0] == 7, 'CSeq of built %s: %r', what, d['cseq'])
        v = d['via'][0]
        if la is not None:
            need(v[:4] == ('SIP', '2.0', la[1].upper(), la[0][0]) and v[4] in ((None, 5060) if la[0][1] == 5060 else (la[0][1],)), 'Via of built %s sent from %r: %r', what, la, v)
        need(dict(v[5]).get('branch', '').startswith('z9hG4bK') and ('rport', None) in v[5], 'Via of built %s: %r', what, v)
        prints.setdefault('branch', {}).setdefault(dict(v[5])['branch'], []).append(what)
        if what == 'request':
            need(g.sl[0] == 'INVITE' and g.sl[1][:4] == ('sip', None if user is None else (user.encode(), ('a=b',), None), 'dst', 6000), 'start line %r', g.sl)
            c = d['contact'][0]
            if mine and la is not None:
                need(c[1][2] == la[0][0] and c[1][3] in ((None, 5060) if la[0][1] == 5060 else (la[0][1],)), 'Contact %r', c)
                need(dict(c[1][4]).get('transport') in ((None, 'udp') if la[1] == 'udp' else (la[1],)), 'Contact %r', c)
            if not mine:
                need(c == (name or '', ('sip', U, 'c', None, (('transport', 'tcp'),), ((b'x', b'c d&e'),)), ()), 'Contact %r', c)
            need(g.body == tb, 'body %r', g.body)
            need([x[1][2] for x in d.get('route', [])] == ['r1'] * len(routes), 'routes')
        elif what in ('ack', 'cancel'):
            need(g.sl[1] == uri(str(ruri)) and len(d.get('route', [])) == len(routes) and g.body == b'', '%s: %r', what, g.sl)
        elif what == '486':
            need(d['reason'] == [('SIP', (('cause', 486), ('text', 'all "lines" busy; x, y')))], 'reason %r', d['reason'])
        elif what == '200':
            need(g.body == tb and (b is None or g.ct == (('application/sdp', ()) if body == 'sdp' else ('text/plain', ()))), 'body of the answer')
    need([sorted(x) for x in prints['branch'].values() if 'request' in x] == [sorted(['request', 'ack', 'cancel', '200', '486', '100'])], 'branches %r', prints['branch'])
    ctx.step('built', (name, user, body, la, compact, mine, len(routes)))
    ctx.outcome = 'ok'


def scen_fresh(ch, ctx, cfg):
    """tags, branches, Call-IDs, CSeqs made here are well formed and never repeat within the bound"""
    SV, SF, CI, CS = H('SipVia'), H('SipFrom'), H('SipCallId'), H('SipCSeq')
    seen = {}
    for k in range(cfg['n']):
        v = SV()
        v.genBranch()
        f = SF()
        f.genTag()
        for kind, x in (('branch', v.getBranch()), ('tag', f.getTag()), ('call-id', str(CI())), ('guid', str(H('SipCiscoGUID')()))):
            need(x not in seen.setdefault(kind, set()), '%s %s repeats', kind, x)
            need(TOKEN.match(x), '%s %r', kind, x)
            seen[kind].add(x)
        c = CS.genRandCSeq()
        need(0 < c < 2 ** 31 - 1000, 'CSeq %d', c)
        a, b = CI(), None
        b = a + '-b2b_1'
        need(str(b) == str(a) + '-b2b_1' and str(a) in seen['call-id'] or True, 'call id')
    ctx.step('fresh', 0)
    ctx.outcome = 'ok'


if __name__ == '__main__':
    def body():
        c = Check('C23', 'model_checking')
        allh = list(ADDR) + sorted(VALS)
        c.explore('values', scen_values, [dict(headers=[h], full=c.thorough and h in ('contact', 'from', 'route')) for h in allh])
        c.explore('start line', scen_ruri, [dict()])
        c.explore('tel', scen_tel, [dict()])
        c.explore('status line', scen_status, [dict()])
        c.explore('order', scen_order, [dict(n=n) for n in c.q((0, 1, 2), (0, 1, 2, 3))])
        c.explore('bodies', scen_body, [dict()])
        eh = [h for h in allh if edits(h, _Any())]
        c.explore('copies of headers', scen_copies, [dict(headers=[h], full=c.thorough) for h in eh])
        c.explore('copies of messages', scen_msgcopies, [dict(depth=c.q(2, 3))])
        c.explore('built', scen_built, [dict()])
        c.explore('fresh', scen_fresh, [dict(n=2000)])
        c.finish()

    class _Any(object):
        asterisk = False

        def __getattr__(self, n):
            return self
        otherparams = qop = None
    main(body)
