"""C25: session descriptions of an enumerated grammar through the real parser, editors and printer; an independent reader of
what is printed, and a plain-text model of every edit that runs in lock-step with the original and with its copy."""
from common import *
import re, copy, itertools
from sippy.MsgBody import MsgBody
from sippy.SdpBody import SdpBody
from sippy.SdpMedia import SdpMedia
from sippy.SdpOrigin import SdpOrigin
from sippy.SdpMediaDescription import SdpMediaDescription, a_header

GRAMMAR = re.compile(r'v o s i? u? e* p* c? b* (tr*)+ z? k? a* (m i? c? b* k? a*)*'.replace(' ', '') + '$')
LOCALS = (None, (('192.0.2.77', 5060), 'udp'), (('[2001:db8::77]', 5060), 'udp'))


class D(object):
    """what a description says: session lines but c=, the address if there are no streams, streams"""
    def __init__(self, s, c, m):
        self.s, self.c, self.m = s, c, m

    def key(self):
        return (tuple(self.s), self.c if not self.m else None, tuple((c, tuple(l)) for c, l in self.m))

    def copy(self):
        return D(self.s[:], self.c, [[c, l[:]] for c, l in self.m])

    def text(self, eol='\r\n', end='\r\n', topc=True):
        """as another party would write it; topc: common address at session level"""
        o = []
        cs = set(c for c, l in self.m)
        top = self.c if not self.m else (self.m[0][0] if topc else None)
        for n, v in self.s:
            if n in 'btrzka' and top is not None:
                o.append('c=' + top)
                top = None
            o.append(n + '=' + v)
        for c, l in self.m:
            k = 0
            while k < len(l) and l[k][0] in 'mi':
                o.append(l[k][0] + '=' + l[k][1])
                k += 1
            if not topc or c != self.m[0][0]:
                o.append('c=' + c)
            o += [n + '=' + v for n, v in l[k:]]
        return eol.join(o) + end


def read(text):
    need(text.endswith('\r\n'), 'the last line is not ended: %r', text[-40:])
    lines = []
    for l in text[:-2].split('\r\n'):
        need('\n' not in l and '\r' not in l and l[1:2] == '=' and l[:1].isalpha(), 'line %r printed', l)
        lines.append((l[0], l[2:]))
    need(GRAMMAR.match(''.join(n for n, v in lines)), 'lines printed in the order %s', ''.join(n for n, v in lines))
    d = D([], None, [])
    for n, v in lines:
        if n == 'm':
            d.m.append([d.c, []])
        if n == 'c':
            if d.m:
                d.m[-1][0] = v
            else:
                d.c = v
        elif d.m:
            d.m[-1][1].append((n, v))
        else:
            d.s.append((n, v))
    return d


def same(got, want, what):
    if got.key() == want.key():
        return
    for n, a, b in (('session lines', got.s, want.s), ('address', got.key()[1], want.key()[1]), ('number of streams', len(got.m), len(want.m))):
        need(a == b, '%s: %s printed as %r, should be %r', what, n, a, b)
    for i, (a, b) in enumerate(zip(got.m, want.m)):
        need(a[0] == b[0], '%s: address of stream %d printed as %r, should be %r', what, i, a[0], b[0])
        need(a[1] == b[1], '%s: lines of stream %d printed as %r, should be %r', what, i, a[1], b[1])


def judge(body, want, what):
    """body: MsgBody or SdpBody"""
    same(read(str(body)), want, what)
    for la in LOCALS:
        same(read(body.localStr(la)), want, what + ' (localStr)')


def fields(sdp, want, what):
    """what the editors see"""
    def eq(a, b, f):
        need(a == b, '%s: %s reads %r, should be %r', what, f, a, b)
    eq([(a.name, a.value) for a in sdp.a_headers], [attr(v) for n, v in want.s if n == 'a'], 'session attributes')
    o = dict(want.s)['o'].split()
    h = sdp.o_header
    eq([h.username, str(h.session_id), str(h.version), h.network_type, h.address_type, h.address], o, 'origin')
    eq(len(sdp.sections), len(want.m), 'streams')
    for i, (sect, (c, l)) in enumerate(zip(sdp.sections, want.m)):
        m = l[0][1].split(' ')
        h = sect.m_header
        eq([h.stype, str(h.port), h.transport], [m[0], m[1].split('/')[0], m[2]], 'stream %d' % i)
        eq([str(f) for f in h.formats], m[3:], 'formats of stream %d' % i)
        if m[0] in ('audio', 'video'):
            eq(list(h.formats), [int(f) if f.isdigit() else f for f in m[3:]], 'formats of stream %d' % i)
        eq(type(h.port), int, 'type of port')
        eq([sect.c_header.ntype, sect.c_header.atype, sect.c_header.addr], c.split(' '), 'address of stream %d' % i)
        A = [attr(v) for n, v in l if n == 'a']
        eq([(a.name, a.value) for a in sect.a_headers], A, 'attributes of stream %d' % i)
        hold = c in ('IN IP4 0.0.0.0', 'IN IP6 ::') or ('sendonly', None) in A or ('inactive', None) in A
        eq(sect.isOnHold(), hold, 'hold of stream %d' % i)
        for name in ('PCMU/8000', 'telephone-event/8000', 'opus/48000/2', 'PCMU'):
            pts = [int(v.split(' ')[0]) for n, v in A if n == 'rtpmap' and v is not None and v.split(' ', 1)[1] == name]
            eq(sect.getPTbyName(name), pts[0] if pts else None, 'payload type of %s' % name)


def attr(v):
    n, s, r = v.partition(':')
    return (n, r if s else None)


def roundtrip(want, text, what, wraps=(True,)):
    """parse, print, copy, print again"""
    for wrap in wraps:
        try:
            if wrap:
                b = MsgBody(text)
                need(str(b) == text and b.localStr() == text, '%s: a body not yet parsed is printed changed', what)
                u = b.getCopy()
                b.parse()
                u.parse()
                b2 = b.getCopy()
                sdp = b.content
            else:
                b = sdp = SdpBody(text)
                b2 = u = b.getCopy()
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: %r raised by %r' % (what, e, text))
        judge(b, want, what)
        judge(b2, want, 'copy of ' + what)
        judge(u, want, 'copy made before parsing of ' + what)
        fields(sdp, want, what)
        need(str(b2) == str(b) and SdpBody(str(b)).localStr() == str(b), '%s: printed differently by the copy or after another round', what)


# ---- which lines are there
E1, E2 = ('e', 'j.doe@example.com (Jane Doe)'), ('e', 'x@y')
P1, P2 = ('p', '+1 617 555-6011'), ('p', '+44-171-380-7777')
B1, B2, B3 = ('b', 'AS:128'), ('b', 'TIAS:64000'), ('b', 'CT:1')
T1, T2, T3 = ('t', '0 0'), ('t', '3034423619 3042462419'), ('t', '1 2')
R1, R2, R3 = ('r', '604800 3600 0 90000'), ('r', '7d 1h 0 25h'), ('r', '1d 1h 0')
TS = [[T1], [T1, R1], [T1, R1, R2], [T1, T2], [T1, R1, T2], [T1, T2, R2], [T1, R1, T2, R2, R3, T3], [T1, R1, R1], [T1, T1]]
HEAD = [('v', '0'), ('o', '- 20518 1 IN IP4 203.0.113.1'), ('s', 'call')]
A1, A2, A3 = ('a', 'sendrecv'), ('a', 'rtpmap:0 PCMU/8000'), ('a', 'x-tool:a=b:c')
V4, V4B, V6 = 'IN IP4 203.0.113.1', 'IN IP4 203.0.113.2', 'IN IP6 2001:db8::1'
M1 = [('m', 'audio 10000 RTP/AVP 0 8 101'), A2, ('a', 'rtpmap:101 telephone-event/8000'), ('a', 'fmtp:101 0-16')]
M2 = [('m', 'video 10002 RTP/AVP 96'), ('i', 'screen'), B1, B2, ('k', 'clear:x'), ('a', 'inactive')]
M3 = [('m', 'image 10004 udptl t38')]


def scen_lines(ch, ctx, cfg):
    """every combination of absent, present and repeated session lines"""
    s = list(HEAD)
    for opts in ([[], [('i', 'info')]], [[], [('u', 'http://www.example.com/x?y=z')]], [[], [E1], [E1, E2]], [[], [P1], [P1, P2, P1]],
                 [[], [B1], [B1, B2, B3]], TS, [[], [('z', '2882844526 -1h 2898848070 0')]], [[], [('k', 'prompt')]], [[], [A3], [A1, A3, A1]]):
        s += ch.pick(opts)
    for nm in cfg['streams']:
        m = [[V4, list(x)] for x in [M1, M2, M3][:nm]]
        d = D(s, V4 if nm == 0 else None, m)
        for topc in cfg.get('tops', (True,)):
            roundtrip(d, d.text(topc=topc), 'description', cfg.get('wraps', (True,)))
        ctx.step('%d streams' % nm, d.key())
    ctx.outcome = 'ok'


def scen_media(ch, ctx, cfg):
    """every combination of media lines in up to three streams, and of their addresses"""
    n = cfg['n']
    s = HEAD + ch.pick([[T1], [B1, B2, T1, R1, ('k', 'prompt'), A1]])
    m = []
    for i in range(n):
        l = [('m', ch.pick(['audio %d RTP/AVP 0' % (4000 + i)] if i else ['audio 4000 RTP/AVP 0', 'video 0 RTP/SAVP 97 98']))]
        for opts in ([[], [('i', 'about %d' % i)]], [[], [B1], [B3, B1]], [[], [('k', 'prompt')]], [[], [A1], [A2, A3, A2]]) if (i == 1 and n == 2 or n == 1 or cfg.get('full')) else ([[], [('i', 'x'), B2, B1, ('k', 'prompt'), A2]],):
            l += ch.pick(opts)
        m.append([ch.pick([V4, V4B, V6]), l])
    d = D(s, None, m)
    for topc in (True, False):
        roundtrip(d, d.text(topc=topc), 'description', cfg.get('wraps', (True, False)))
    ctx.step('media', d.key())
    ctx.outcome = 'ok'


# ---- values
UNI = ['a\x0bb', 'a\x0cb', 'x\x1cy', 'x\x85y', 'caf\xe9 \u2028 x', '\u65e5\u672c', ' ', ' lead', 'trail ', 'a=b', 'm=audio', '-', 'x\ty', ':', 'a:']
VALUES = {
    'o': ['- 1 1 IN IP4 0.0.0.0', 'joe 2890844526 2890842807 IN IP6 2001:db8::9', 'a=b 9223372036854775807 0 IN IP4 host.example.com', '- 007 010 IN IP4 1.2.3.4'],
    's': UNI, 'i': UNI, 'u': UNI[6:], 'e': UNI[6:], 'p': UNI[6:], 'b': ['AS:0', 'X-YZ:128', 'RS:1'], 't': ['0 0', '2873397496 0'], 'r': ['7d 1h 0 25h'],
    'z': ['2882844526 -1h'], 'k': ['base64:AAAA==', 'uri:http://x/?y=z'], 'a': UNI + ['rtpmap:96 opus/48000/2', 'fmtp:96 a=1;b="x:y"', 'candidate:1 1 UDP 2130706431 10.0.1.1 8998 typ host', 'SENDONLY', 'ssrc:1 cname:x']}
MVALUES = {
    'm': ['audio 0 RTP/AVP 0', 'audio 65535 RTP/AVP 0 1 127', 'audio 49170/2 RTP/AVP 31', 'video 4/1 RTP/SAVPF 96', 'AUDIO 9 UDP/TLS/RTP/SAVPF 111 63', 'Video 5 RTP/AVP 26', 'image 6 udptl t38', 'application 7 DTLS/SCTP 5000',
          'application 60032 TCP/BFCP *', 'message 8 TCP/MSRP *', 'text 9 RTP/AVP 98 99', 'audio 10 udp L16', 'video 11 TCP * 7', 'application 60026 RTP/AVP 100', 'x-other 12 x/y/z a:b c=d'],
    'i': UNI, 'b': VALUES['b'], 'k': VALUES['k'],
    'a': VALUES['a'] + ['sendonly', 'recvonly', 'inactive', 'sendonly:', 'inactive:x', 'rtpmap:0 PCMU/8000', 'rtpmap:97 telephone-event/8000', 'rtpmap:96 PCMU'],
    'c': [V4, V6, 'IN IP4 0.0.0.0', 'IN IP6 ::', 'IN IP4 224.2.1.1/127', 'IN IP4 224.2.1.1/127/3', 'IN IP6 FF15::101/3', 'IN IP4 host.example.com', 'IN IP6 0.0.0.0', 'IN IP4 ::']}
SEQ = 'vosiuepcbtrzka'
MSEQ = 'micbka'


def scen_values(ch, ctx, cfg):
    """each line with each value, alone and as the last one, with each line end"""
    where = ch.pick(['session', 'media'])
    tab = VALUES if where == 'session' else MVALUES
    name = ch.pick(sorted(tab))
    v = ch.pick(tab[name])
    full = ch.choose(2)
    s = list(HEAD)
    if where == 'session':
        extra = [('i', 'x'), ('u', 'x'), E1, P1, B1, T1, R1, ('k', 'prompt'), A1] if full else [T1]
        s = [x for x in s + extra if x[0] != name] + [(name, v)]
        s.sort(key=lambda x: SEQ.index(x[0]))
        if name == 'r' and not full:
            s = [x for x in s if x[0] != 'r'] + [('r', v)]
    else:
        s.append(T1)
    for ns in ((0, 1, 2) if where == 'session' else (1, 2)):
        d = D(s, V4 if not ns else None, [[V4, list(M1)], [V4B, list(M2)]][:ns])
        if where == 'media':
            c, l = d.m[-1]
            if name == 'c':
                d.m[-1][0] = v
            else:
                l = [x for x in (l if full else l[:1]) if x[0] != name] + [(name, v)]
                l.sort(key=lambda x: MSEQ.index(x[0]))
                d.m[-1][1] = l
        for topc in (True, False):
            for eol, end in (('\r\n', '\r\n'), ('\n', '\n'), ('\r\n', ''), ('\r\n', '\r\n\r\n'), ('\n', '\n\n')):
                if topc or cfg['all']:
                        roundtrip(d, d.text(eol, end, topc), '%s line %s=%r' % (where, name, v), (True, False) if cfg['all'] else (True,))
        ctx.step(where, d.key())
    ctx.outcome = 'ok'


# ---- editing
BASES = {'none': D(HEAD + [B1, T1, A1], V4, []),
         'one': D(HEAD + [T1, A3], None, [[V4, list(M1)]]),
         'shared': D(HEAD + [E1, E2, B1, B2, T1, R1, A1], None, [[V4, list(M1)], [V4, list(M2)]]),
         'own': D(HEAD + [T1], None, [[V4B, list(M1)], [V6, list(M1)]]),
         'three': D(HEAD + [T1, T2, R2], None, [[V4, list(M1)], [V4, list(M3)], [V4B, list(M2)]])}


def setm(l, k, v):
    p = l[0][1].split(' ')
    p[k] = v
    l[0] = ('m', ' '.join(p))


def a_at(l, k):
    """index in l of the k-th a= line, or the end"""
    idx = [i for i, x in enumerate(l) if x[0] == 'a']
    return idx[k] if k < len(idx) else len(l)


def b_end(l, before):
    k = 0
    while k < len(l) and l[k][0] not in before:
        k += 1
    return k


def optimised(l):
    f = l[0][1].split(' ')[3:]

    def drop(n, v):
        name, val = attr(v)
        pt = (val or '').split(' ')[0]
        return n == 'a' and name in ('rtpmap', 'fmtp') and pt.isdigit() and pt not in f
    l[:] = [x for x in l if not drop(*x)]


def op_addr(i, at, addr):
    def real(b):
        b.sections[i].c_header.atype, b.sections[i].c_header.addr = at, addr

    def model(d):
        d.m[i][0] = 'IN %s %s' % (at, addr)
    return ('address of stream %d := %s' % (i, addr), i, real, model)


def op(i, text, real, model):
    return (text + ' of stream %d' % i, i, lambda b: real(b.sections[i]), lambda d: model(d.m[i][1]))


def fm(l, f):
    p = l[0][1].split(' ')
    p[3:] = f(p[3:])
    l[0] = ('m', ' '.join(p))


OPS = []
for i in (0, 1, 2):
    OPS += [op_addr(i, 'IP4', '198.51.100.7'), op_addr(i, 'IP4', '203.0.113.1'), op_addr(i, 'IP6', '2001:db8::5')]

    def newc(b, i=i):
        b.sections[i].addHeader('c', 'IN IP4 198.51.100.7')

    def newc_m(d, i=i):
        d.m[i][0] = 'IN IP4 198.51.100.7'
    OPS.append(('new c= of stream %d' % i, i, newc, newc_m))

    def drop(b, i=i):
        del b.sections[i]

    def drop_m(d, i=i):
        if len(d.m) == 1:
            raise Prune()
        del d.m[i]
    OPS.append(('stream %d removed' % i, i, drop, drop_m))

    def dup(b, i=i):
        b.sections.append(b.sections[i].getCopy())

    def dup_m(d, i=i):
        d.m.append([d.m[i][0], d.m[i][1][:]])
    OPS.append(('stream %d copied to the end' % i, i, dup, dup_m))

    def frm_rm(s):
        s.m_header.formats = [x for x in s.m_header.formats if str(x) != '101']

    def a_val(s):
        for a in s.a_headers:
            if a.name == 'rtpmap':
                a.value = '0 X/1'
                return

    def a_val_m(l):
        for k, x in enumerate(l):
            if x[0] == 'a' and attr(x[1])[0] == 'rtpmap':
                l[k] = ('a', 'rtpmap:0 X/1')
                return

    def a_del(s):
        del s.a_headers[:1]

    def a_del_m(l):
        k = a_at(l, 0)
        del l[k:k + 1]

    def iadd(s):
        s += 'a=x-new:1\r\n'
    OPS += [op(i, 'port', lambda s: setattr(s.m_header, 'port', 33000), lambda l: setm(l, 1, '33000')),
            op(i, 'transport', lambda s: setattr(s.m_header, 'transport', 'RTP/SAVP'), lambda l: setm(l, 2, 'RTP/SAVP')),
            op(i, 'format 101 removed', frm_rm, lambda l: fm(l, lambda f: [x for x in f if x != '101'] or f) if [x for x in l[0][1].split(' ')[3:] if x != '101'] else None),
            op(i, 'format 18 appended', lambda s: s.m_header.formats.append(18), lambda l: fm(l, lambda f: f + ['18'])),
            op(i, 'formats cut to the first one', lambda s: s.m_header.formats.__delitem__(slice(1, None)), lambda l: fm(l, lambda f: f[:1])),
            op(i, 'm= replaced', lambda s: setattr(s, 'm_header', SdpMedia('audio 7 RTP/AVP 8')), lambda l: l.__setitem__(0, ('m', 'audio 7 RTP/AVP 8'))),
            op(i, 'attribute added', lambda s: s.addHeader('a', 'ptime:20'), lambda l: l.append(('a', 'ptime:20'))),
            op(i, 'attribute +=', iadd, lambda l: l.append(('a', 'x-new:1'))),
            op(i, 'attribute inserted', lambda s: s.insertHeader(1, 'a', 'ptime:30'), lambda l: l.insert(a_at(l, 1), ('a', 'ptime:30'))),
            op(i, 'attribute removed', a_del, a_del_m),
            op(i, 'attribute value', a_val, a_val_m),
            op(i, 'unused attributes removed', lambda s: s.optimize_a(), optimised)]


def origin(b):
    b.o_header.version, b.o_header.session_id = 77, 88


def origin_m(d):
    o = d.s[1][1].split(' ')
    o[1:3] = ['88', '77']
    d.s[1] = ('o', ' '.join(o))


def origin2(b):
    b.o_header = SdpOrigin('j 1 2 IN IP6 ::5').getCopy()


def iadd2(b):
    b += 'a=nortpproxy:yes\r\n'


def iadd2_m(d):
    (d.m[-1][1] if d.m else d.s).append(('a', 'nortpproxy:yes'))


def a0(b):
    if b.a_headers:
        b.a_headers[0].value = 'v'


def a0_m(d):
    k = a_at(d.s, 0)
    if k < len(d.s):
        d.s[k] = ('a', attr(d.s[k][1])[0] + ':v')


def addm(b):
    s = SdpMediaDescription()
    for n, v in (('m', 'image 5 udptl t38'), ('c', V4), ('i', 'fax')):
        s.addHeader(n, v)
    b.sections.append(s)


def addm_m(d):
    d.m.append([V4, [('m', 'image 5 udptl t38'), ('i', 'fax')]])


OPS += [('origin changed', -1, origin, origin_m), ('origin replaced', -1, origin2, lambda d: d.s.__setitem__(1, ('o', 'j 1 2 IN IP6 ::5'))),
        ('attribute added to the end', -1, iadd2, iadd2_m), ('session attribute added', -1, lambda b: b.addHeader('a', 'tool:x'), lambda d: d.s.append(('a', 'tool:x'))),
        ('session attribute value', -1, a0, a0_m), ('stream added', -1, addm, addm_m),
        ('subject', -1, lambda b: b.addHeader('s', 'new'), lambda d: d.s.__setitem__(2, ('s', 'new')))]


def scen_edit(ch, ctx, cfg):
    base = BASES[cfg['base']]
    text = base.text(topc=not (cfg['topc'] and ch.choose(2)))
    how = ch.choose(2)
    b = MsgBody(text)
    if how:
        x = b.getCopy()
        b.parse()
        x.parse()
        slots = [[b, base.copy()], [x, base.copy()]]
    else:
        b.parse()
        slots = [[b, base.copy()]]
    for k in range(cfg['depth']):
        menu = []
        for si, (r, d) in enumerate(slots):
            menu += [(si, o) for o in OPS if o[1] < len(d.m)]
        if len(slots) < 2:
            menu.append((0, None))
        si, o = ch.pick(menu)
        r, d = slots[si]
        if o is None:
            slots.append([r.getCopy(), d.copy()])
            what = 'copied'
        else:
            o[3](d)
            o[2](r.content)
            what = ['original', 'copy'][si] + ': ' + o[0]
        for j, (r2, d2) in enumerate(slots):
            judge(r2, d2, '%s after "%s"' % (['original', 'copy'][j], what))
            same(read(str(SdpBody(str(r2)))), d2, 'parsed again')
        ctx.step(what, tuple(d2.key() for r2, d2 in slots))
    ctx.outcome = 'ok'


def scen_own(ch, ctx, cfg):
    """origins made here carry the address of the interface they leave through; new session ids each time"""
    from sippy.SipConf import SipConf
    a = SdpOrigin()
    o = [SdpOrigin() for i in range(3)]
    need(len(set(x.session_id for x in o + [a])) == 4, 'session ids repeat')
    d = ch.pick(sorted(BASES))
    b = SdpBody(BASES[d].text())
    b.o_header = a.getCopy()
    if ch.choose(2):
        b = b.getCopy()
    for la in LOCALS:
        w = BASES[d].copy()
        fam, addr = ('IP4', str(SipConf.my_address)) if la is None else ('IP6', la[0][0][1:-1]) if la[0][0][0] == '[' else ('IP4', la[0][0])
        w.s[1] = ('o', '- %d %d IN %s %s' % (a.session_id, a.version, fam, addr))
        same(read(b.localStr(la)), w, 'own origin towards %r' % (la,))
    v = a.version
    b.o_header.version += 1
    need(a.version == v, 'changing the copy of an origin changes the original')
    ctx.step('own', d)
    ctx.outcome = 'ok'


BAD = ['', 'v=0', 'hello', 'v=0\r\nhello\r\n', 'v=0\r\no=-\r\n']


def scen_bad(ch, ctx, cfg):
    """a description without a mandatory line is refused, not read as something else"""
    base = BASES[ch.pick(['one', 'shared', 'own', 'three', 'none'])]
    text = base.text(topc=False)
    lines = text.split('\r\n')[:-1]
    what = ch.pick(['v', 'o', 's', 't', 'm', 'c'])
    idx = [i for i, l in enumerate(lines) if l[0] == what]
    for i in idx:
        if what == 'm' and len(base.m) < 2 and False:
            continue
        if what == 't':
            t = [l for l in lines if l[0] not in 'tr']
        else:
            t = lines[:i] + lines[i + 1:]
        if what == 'm' or (what == 'c' and not base.m):
            continue
        try:
            SdpBody('\r\n'.join(t) + '\r\n')
        except Exception as e:
            ctx.step('refused', (what, i))
        else:
            raise Violation('description without its %s= line (line %d) accepted: %r' % (what, i, t))
    ctx.outcome = 'ok'


if __name__ == '__main__':
    def body():
        c = Check('C25', 'model_checking')
        c.explore('lines', scen_lines, [dict(streams=(0, 2))] if not c.thorough else [dict(streams=(0, 1, 2, 3))])
        c.explore('media', scen_media, [dict(n=1), dict(n=2)] + ([dict(n=3), dict(n=2, full=1)] if c.thorough else [dict(n=3)]))
        c.explore('values', scen_values, [dict(all=c.thorough)])
        c.explore('edits', scen_edit, [dict(base=b, depth=c.q(2, 3), topc=c.thorough) for b in sorted(BASES)])
        c.explore('own', scen_own, [dict()])
        c.explore('refused', scen_bad, [dict()])
        c.finish()
    main(body)
