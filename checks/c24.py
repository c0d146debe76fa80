"""C24: malformed datagrams thrown at the real B2BUA in the middle of two calls.  What is broken beyond use must change nothing but
draw an error answer at most; anything else may only concern the call it belongs to; nothing may be left behind."""
from b2b_model import *
import random
import sippy.Network_server as ns
import sippy.SipTransactionManager as stm
for _m in list(sys.modules.values()):
    if getattr(_m, '__name__', '').startswith('sippy') and hasattr(_m, 'dump_exception'):
        _m.dump_exception = lambda *a, **k: None
stm.print = ns.print = lambda *a, **k: None
XADDR = ('192.0.2.60', 5066)
BADV = ['', 'garbage', '<', '"', ';', ',', '=', '\x00', '%zz', '<sip:', '<sip:@>', '<sip:a@b:x>', '<sip:[::1>', '"a <sip:a@b>', '-1', '9' * 25, '1.5', 'z' * 3000, '@', '\u00e9\u65e5', 'a;b=";c']
ADDED = ['Authorization', 'Proxy-Authorization', 'Expires', 'Route', 'Record-Route', 'Via', 'Refer-To', 'Referred-By', 'Replaces', 'Reason', 'Warning', 'Diversion', 'CC-Diversion',
         'RSeq', 'Require', 'Supported', 'Cisco-GUID', 'P-Asserted-Identity', 'Also', 'User-Agent', 'Server', 'Allow', 'Date', 'WWW-Authenticate', 'Proxy-Authenticate', 'Path', 'Session-Expires', 'X-Odd']


def hdrs(raw):
    """what can be made out of it: (start line, {name: [values]}, body octets)"""
    t = raw.decode('utf-8', 'replace')
    head, sep, body = t.partition('\r\n\r\n')
    sl, _, rest = head.partition('\r\n')
    d = {}
    for l in re.sub(r'\r\n[ \t]+', ' ', rest).split('\r\n'):
        n, c, v = l.partition(':')
        if c:
            n = n.strip().lower()
            d.setdefault(minisip.COMPACT.get(n, n), []).append(v.strip())
    return sl, d, raw.partition(b'\r\n\r\n')[2]


def broken(raw, fresh=True):
    """why nothing but dropping or refusing it is possible, or None"""
    if len(raw) < 32:
        return 'short'
    try:
        raw.decode()
    except UnicodeDecodeError:
        if b'\r\n\r\n' not in raw:
            return 'encoding'
        try:
            raw.partition(b'\r\n\r\n')[0].decode()
        except UnicodeDecodeError:
            return 'encoding'
    sl, d, body = hdrs(raw)
    if sl.startswith('SIP/2.0 '):
        if not re.match(r'SIP/2\.0 [1-9][0-9][0-9]( |$)', sl):
            return 'status line'
    elif len(sl.split()) != 3:
        return 'start line'
    for n in ('via', 'from', 'to', 'cseq', 'call-id'):
        if n not in d:
            return 'no ' + n
    if not re.match(r'\d+\s+\S+$', d['cseq'][0]):
        return 'cseq'
    if not re.search(r'\S\s+[^;\s,]', d['via'][0]) and not sl.startswith('SIP/'):
        return 'via'
    for n in ('from', 'to')[:2 if fresh else 1]:
        v = d[n][0]
        if v == '' or '<' in v and '>' not in v.partition('<')[2]:
            return n
    if 'content-length' in d and not (sl.startswith('SIP/') and (sl[8:11] == '100' or sl[8] > '3')):
        v = d['content-length'][0]
        if not v.isdigit():
            return 'content-length'
        if int(v) > len(body) + 7:
            return 'body'
    return None


def isfresh(what):
    return what not in ('again', 'CANCEL', 'ACK') and not what.isdigit()


def mutations(base, kind):
    """(name, octets) of everything done to a well-formed message"""
    yield 'itself', None
    raw = base.encode()
    head, _, body = base.partition('\r\n\r\n')
    lines = head.split('\r\n')
    join = lambda ls, b=body: ('\r\n'.join(ls) + '\r\n\r\n' + b).encode()
    if kind == 'cut':
        for k in range(len(raw)):
            yield 'cut %d' % k, raw[:k]
        return
    if kind == 'bytes':
        for i, l in enumerate(lines):
            for k in (0, len(l) // 2, len(l)):
                pos = len('\r\n'.join(lines[:i] + [''])) + k
                for b in (b'\xff', b'\xc3', b'\x00', b'\xed\xa0\x80', b'\r', b'\n', b'\r\n', b'\r\n\r\n', b' ', b':'):
                    yield 'byte %r at %d+%d' % (b, i, k), raw[:pos] + b + raw[pos:]
        for b in (b'', b'\r\n\r\n', b'\x00' * 40, b'x' * 40, b'\xff' * 40, b'SIP/2.0 200 OK\r\n\r\n' + b' ' * 30, b'INVITE sip:a@b SIP/2.0\r\n' * 3, b'\r\n' * 40, b'SIP/2.0 ' + b'\r\n' * 40, b'\r\n' + raw, b'\xef\xbb\xbf' + raw):
            yield 'blob %r' % b[:20], b
        return
    if kind == 'lines':
        for i in range(len(lines)):
            yield 'without line %d' % i, join(lines[:i] + lines[i + 1:])
            yield 'line %d twice' % i, join(lines[:i] + [lines[i]] + lines[i:])
            yield 'line %d without colon' % i, join(lines[:i] + [lines[i].replace(':', '', 1)] + lines[i + 1:])
            yield 'line %d folded' % i, join(lines[:i] + [' ' + lines[i]] + lines[i + 1:])
        w = lines[0].split(' ')
        for i in range(len(w)):
            for v in BADV + ['sip:', 'SIP/3.0', '99', '1000', 'http://a/', 'sip:a@[b', 'sip:a@b:99999999', 'sip:%', 'INVITE', 'ACK', 'SIP/2.0', '0', '699', '700']:
                yield 'start line word %d = %.10r' % (i, v), join([' '.join(w[:i] + [v] + w[i + 1:])] + lines[1:])
        return
    if kind == 'values':
        for i, l in enumerate(lines[1:], 1):
            n, v = l.split(': ', 1)
            for b in BADV:
                yield '%s = %.12r' % (n, b), join(lines[:i] + [n + ': ' + b] + lines[i + 1:])
            for b in ('>', '<', '"', ';', ':', '\x00'):
                for k in range(0, len(v) + 1, max(1, len(v) // 6)):
                    yield '%s with %r at %d' % (n, b, k), join(lines[:i] + [n + ': ' + v[:k] + b + v[k:]] + lines[i + 1:])
        return
    if kind == 'added':
        for n in ADDED:
            for b in BADV:
                yield '+%s: %.12r' % (n, b), join(lines[:1] + ['%s: %s' % (n, b)] + lines[1:])
                yield '%s: %.12r at the end' % (n, b), join(lines + ['%s: %s' % (n, b)])
        return
    if kind == 'body':
        bl = body.split('\r\n')[:-1]
        fix = lambda b: join([re.sub('^Content-Length: .*', 'Content-Length: %d' % len(b.encode()), x) for x in lines], b)
        for i in range(len(bl)):
            yield 'without body line %d' % i, fix('\r\n'.join(bl[:i] + bl[i + 1:]) + '\r\n')
            for b in ('', 'x', bl[i][:2], bl[i][:2] + 'a', bl[i] + ' x', bl[i].replace(' ', ''), bl[i][:2] + '-1 -1 -1', '=' + bl[i], bl[i][:2] + '\x00', 'm=' + bl[i], bl[i] * 2):
                yield 'body line %d = %.10r' % (i, b), fix('\r\n'.join(bl[:i] + [b] + bl[i + 1:]) + '\r\n')
        for b in ('x', '\r\n\r\n', 'v=0\r\n', 'm=audio\r\n', 'a' * 5000, '{"a": 1}', '--b\r\n\r\n'):
            for ct in (None, 'garbage', 'multipart/mixed', 'multipart/mixed;boundary=b', 'multipart/mixed;boundary=', 'application/sdp;', '', 'text/plain;charset=zz'):
                yield 'body %.10r of %r' % (b, ct), fix(b).replace(b'application/sdp', ct.encode()) if ct is not None else fix(b)
        for d in (-3, -2, -1, 1, 2, 5, 7, 8, 20, 10 ** 6):
            yield 'length %+d' % d, re.sub(rb'Content-Length: \d+', b'Content-Length: %d' % (len(body) + d), base.encode())


class Mute:
    """a leg whose owner does not react any more"""
    def __init__(self, leg):
        self.leg = leg
        self.st = 'x'

    def recv(self, m, new):
        pass


def strict_deliver(br, raw, addr):
    srv = list(br.tm.l4r.cache_l2s.values())[0]
    srv.stats = [0] * 5
    from sippy.Network_server import Remote_address
    ns.Network_server.handle_read(srv, raw, Remote_address(addr, 'udp'), stm.MonoTime() if hasattr(stm, 'MonoTime') else None)


def start(cfg):
    return Bridge(dict(conf=[('static_route', '5552@%s:%d;auth=u:p' % CALLEES['1']), ('auth_enable', 'off'), ('acct_enable', 'on')] + list(cfg.get('conf', ()))))


def place(br, ph, party=None):
    leg = br.call(party=party)
    n = len(br.legs)
    br.pump()
    need(len(br.legs) == n + 1, 'the call did not go out')
    o = br.legs[-1]
    if ph in ('ringing', 'connected', 'reinvite', 'over'):
        o.answer(180)
        br.pump()
    if ph in ('connected', 'reinvite', 'over'):
        o.answer(200, SDP['B'])
        br.pump()
    if ph == 'reinvite':
        leg.reinvite(SDP['C'])
        br.pump()
    if ph == 'over':
        leg.bye()
        br.pump()
    return leg, o


def capture(br, fn):
    """the datagram something would send"""
    got = []
    sv, br.deliver = br.deliver, lambda raw, addr: got.append((raw, addr))
    try:
        fn()
    finally:
        br.deliver = sv
    return got[-1]


def bases(ph, role):
    """the messages of the other call broken at this moment"""
    if role == 'new':
        return ['INVITE', 'OPTIONS', 'REGISTER', 'BYE', 'ACK', 'CANCEL', 'NOTIFY', '200']
    if role == 'caller':
        return {'setup': ['CANCEL', 'again', 'INFO'], 'ringing': ['CANCEL', 'again', 'BYE'], 'connected': ['reINVITE', 'BYE', 'INFO', 'ACK', 'REFER', 'OPTIONS'], 'reinvite': ['CANCEL', 'again', 'BYE'], 'over': ['again', 'BYE']}[ph]
    return {'setup': ['180', '183', '200', '486', '302', '401'], 'ringing': ['183', '200', '486', 'BYE'], 'connected': ['reINVITE', 'BYE', '200'], 'reinvite': ['200', '488', 'BYE'], 'over': ['200', 'BYE']}[ph]


def make(br, what, role, a, o):
    if role == 'new':
        if what == '200':
            return 'SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKno%d\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:a@b>;tag=2\r\nCall-ID: nocall%d\r\nCSeq: 1 INVITE\r\nContent-Length: 0\r\n\r\n' % (br.uniq(), br.uniq()), XADDR
        i = br.uniq()
        body = SDP['A'] if what == 'INVITE' else ''
        return minisip.request(what, 'sip:5551@10.0.0.1', '<sip:1001@%s>;tag=n%d' % (XADDR[0], i), '<sip:5551@10.0.0.1>' + (';tag=zz' if what in ('BYE', 'ACK') else ''), 'new%d' % i, 1, '%s:%d' % XADDR, 'z9hG4bKnew%d' % i,
                               contact='<sip:x@%s:%d>' % XADDR if what in ('INVITE', 'REGISTER') else None, body=body), XADDR
    if role == 'caller':
        i = a.inv if a.mine is None else a.mine
        if what == 'CANCEL':
            return minisip.request('CANCEL', i.ruri, i.get('from'), i.get('to'), a.cid, i.cseq[0], '%s:%d' % XADDR, i.branch), XADDR
        if what == 'again':
            return i.raw, XADDR
        if what == 'ACK':
            return a.lastack[i.cseq[0]] if a.lastack else i.raw, XADDR
        leg = a
    else:
        leg = o
        if what.isdigit():
            t = o.pend if o.pend is not None else o.inv
            code = int(what)
            return minisip.response(t, code, 'R', o.ltag, '<%s>' % o.contact() if code < 400 else None, [('WWW-Authenticate', 'Digest realm="r", nonce="n1", qop="auth", algorithm=MD5')] if code == 401 else (), SDP['B'] if code in (183, 200) else ''), o.party.addr
    if what == 'reINVITE':
        return capture(br, lambda: leg.req('INVITE', SDP['D']))
    return capture(br, lambda: leg.req(what, extra=[('Refer-To', '<sip:1@b>')] if what == 'REFER' else ()))


def tables(br):
    return dict(client=len(br.tm.tclient), server=len(br.tm.tserver), dialogs=sum(map(len, br.tm.req_consumers.values())), calls=len(br.cmap.ccmap), timers=len(br.w.timers), work=len(br.rad.items))


BASE = {}


def story(cfg, todo, ch=None, ctx=None, single=False):
    """two calls up to the phase, the datagrams, the rest of both or of the one not concerned"""
    ph, role, what = cfg['phase'], cfg['role'], cfg['what']
    br = start(cfg)
    w = br.w
    px = br.add('X', XADDR)
    ya, yo = place(br, ph)
    xa, xo = place(br, ph, px)
    strict = cfg['strict']
    fresh = isfresh(what)
    ycids = (ya.cid, yo.cid)
    mark = len(w.sent)
    noise = set()
    done = 0
    bye = unharmed = False
    for name, raw, addr in todo:
        b4 = tables(br)
        n0 = len(w.sent)
        rad0 = len(br.rad.items)
        strict_deliver(br, raw, addr)
        w.pump_threads()
        out = w.sent[n0:]
        sl = hdrs(raw)[0]
        why = broken(raw, fresh)
        lbl = '%s %s in %s: %s' % (role, what, ph, name)
        af = tables(br)
        for t, m, dest, srv in out:
            noise.add(m)
            mm = Msg(m)
            if strict:
                need(not mm.is_req and mm.code >= 400, '%s (%s): %s was sent to %s', lbl, why, mm.sl, dest)
        if strict:
            need(not out or not re.match(r'(SIP/2.0 |ACK\s)', sl), '%s (%s) got an answer: %s', lbl, why, out[0][1].split('\r\n')[0] if out else '')
            need(len(out) <= 1, '%s (%s) got %d answers', lbl, why, len(out))
            if not out:
                need(af == b4, '%s (%s): dropped, but there is more state than before: %s, was %s', lbl, why, af, b4)
            else:
                need(all(af[k] == b4[k] for k in ('client', 'dialogs', 'calls', 'work')), '%s (%s): refused, but there is state: %s, was %s', lbl, why, af, b4)
            if why == 'body' and what not in ('again', 'CANCEL') and not re.match(r'(SIP/2.0 |ACK\s)', sl):
                need(len(out) == 1 and Msg(out[0][1]).code == 400, '%s: got %s instead of 400', lbl, [x[1].split('\r\n')[0] for x in out])
        else:
            codes = [Msg(x[1]).code for x in out if not Msg(x[1]).is_req and x[2] == addr]
            elsewhere = [x for x in out if x[2] != addr or Msg(x[1]).is_req]
            if [c for c in codes if c < 200] and not elsewhere and role != 'new' and what not in ('again', 'CANCEL'):
                need([c for c in codes if c >= 200] or len(br.w.thread_calls), '%s: %s was sent and nothing else happened', lbl, codes)
            if what == 'BYE' and 200 in codes:
                bye = True
            if not elsewhere and not [c for c in codes if c < 400]:
                unharmed = True
        if ctx is not None:
            ctx.step(name, (ph, role, what, name, tuple(x[1].split('\r\n')[0] for x in out)))
        done += 1
    # a request of an established call that has been dropped or refused must not harm it
    whole = strict or unharmed and len(todo) == 1 and role != 'new' and ph == 'connected' and not what.isdigit() and what != 'ACK'
    if whole and role != 'new' and what in ('reINVITE', 'BYE', 'INFO', 'REFER', 'OPTIONS'):
        # its number has been used
        (xa if role == 'caller' else xo).cseq += 1
    if not whole:
        for p in br.parties.values():
            for k, l in list(p.legs.items()):
                if l in (xa, xo):
                    p.legs[k] = Mute(l)
    w.rng.seed(7)
    random.seed(7)

    def pump():
        # what concerns the broken ones is not for the scripted parties
        w.pump_threads()
        rest = []
        for x in w.sent[br.nsent:]:
            cid = Msg(x[1]).cid
            if x[1] in noise or not whole and cid not in ycids:
                continue
            rest.append(x)
        del w.sent[br.nsent:]
        w.sent.extend(rest)
        Bridge.pump(br)
    br.pump = pump
    del w.sent[mark:]
    br.nsent = mark
    pairs = [(ya, yo)] + ([(xa, xo)] if whole else [])
    br.advance(0.2)
    for a, o in pairs:
        if ph in ('setup', 'ringing'):
            o.answer(200, SDP['B'])
            br.pump()
        elif ph == 'reinvite':
            o.answer_re(200, SDP['E'])
            br.pump()
    br.advance(3.0)
    for a, o in pairs:
        if ph != 'over':
            o.reinvite(SDP['F'])
            br.pump()
            need(a.pend is not None, 'a re-INVITE was not passed on')
            a.answer_re(200, SDP['G'])
            br.pump()
    br.advance(3.0)
    for a, o in pairs:
        if ph != 'over':
            a.bye()
            br.pump()
    trace = [(round(t, 3), d, m) for t, m, d, s in w.sent[mark:] if Msg(m).cid in ycids or whole]
    if bye and len(todo) == 1:
        br.advance(400 if ph in ('setup', 'ringing') else 80)
        need(not br.cmap.ccmap, '%s %s in %s: %s: accepted, but the call is still there: %s', role, what, ph, todo[0][0], [(c.state.sname, str(c.uaA.state), str(c.uaO and c.uaO.state)) for c in br.cmap.ccmap])
    if not whole:
        br.advance(40)
        br.cmap.discAll()
        br.advance(40)
        br.cmap.discAll()
    br.quiet_end(140.0 if strict else 400.0)
    return trace, [tuple(i.data) for i in br.rad.items] if strict else len(trace), whole


def scen(ch, ctx, cfg):
    br = start(cfg)
    px = br.add('X', XADDR)
    place(br, cfg['phase'])
    xa, xo = place(br, cfg['phase'], px)
    uniq = cfg['role'] == 'new' or cfg['what'] in ('reINVITE', 'BYE', 'INFO')
    todo = []
    fresh = isfresh(cfg['what'])
    base, addr = make(br, cfg['what'], cfg['role'], xa, xo)
    k = 0
    for name, raw in mutations(base, cfg['kind']):
        if raw is None:
            continue
        if (broken(raw, fresh) is not None) == cfg['strict']:
            if uniq and not cfg['strict']:
                k += 1
                raw = raw.replace(b';branch=z9hG4bK', b';branch=z9hG4bKu%d' % k)
                if cfg['role'] == 'new':
                    raw = raw.replace(b'Call-ID: n', b'Call-ID: u%dn' % k)
            todo.append((name, raw, addr))
    if not todo:
        ctx.outcome = 'none'
        return
    n = cfg['batch']
    parts = [todo[i:i + n] for i in range(0, len(todo), n)] if n else [todo]
    part = ch.pick(parts)
    got = story(cfg, part, ch, ctx)
    key = (cfg['phase'], cfg['role'], cfg['what'], got[2])
    if key not in BASE:
        BASE[key] = story(dict(cfg, strict=got[2]), ())
    want = BASE[key]
    for g, x in zip(got[0], want[0]):
        need(g == x, '%s in %s, %s..%s: afterwards %s was sent instead of %s', cfg['what'], cfg['phase'], part[0][0], part[-1][0], g, x)
    need(len(got[0]) == len(want[0]) and (not cfg['strict'] or got[1] == want[1]), '%s in %s, %s..%s: afterwards %d messages instead of %d', cfg['what'], cfg['phase'], part[0][0], part[-1][0], len(got[0]), len(want[0]))
    ctx.outcome = '%s %s %s' % (cfg['role'], cfg['what'], cfg['kind'])


KABODY = {'401': ('WWW-Authenticate', 'Digest realm="r", nonce="n1", qop="auth", algorithm=MD5'), '407': ('Proxy-Authenticate', 'Digest realm="r", nonce="n1"'), '200': None, '486': None, '500': None}


def ka(ch, ctx, cfg):
    """odd answers to keepalives must not keep further ones from being sent, nor stay behind"""
    side, what, kind = cfg['role'], cfg['what'], cfg['kind']
    code = int(what)

    def begin():
        br = start(dict(conf=[('keepalive_ans', '10'), ('keepalive_orig', '10')]))
        a, o = place(br, 'connected')
        leg, other = (a, o) if side == 'caller' else (o, a)
        for i in range(40):
            br.advance(0.5)
            if other.pend is not None:
                other.answer_re(200, SDP['E'])
                br.pump()
            if leg.pend is not None:
                return br, leg, other
        need(False, 'no keepalive was sent')
    br, leg, other = begin()
    base = minisip.response(leg.pend, code, 'R', leg.ltag, '<%s>' % leg.contact() if code < 400 else None, [KABODY[what]] if KABODY[what] else (), SDP['B'] if code == 200 else '')
    todo = [(n, r) for n, r in mutations(base, kind) if r is not None]
    name, raw = ch.pick(todo)
    again = cfg.get('again')
    br, leg, other = begin()
    w = br.w
    t0 = leg.pend
    known = {p.addr for p in br.parties.values()}

    def pump():
        w.pump_threads()
        rest = [x for x in w.sent[br.nsent:] if x[2] in known]
        del w.sent[br.nsent:]
        w.sent.extend(rest)
        Bridge.pump(br)
    br.pump = pump
    strict_deliver(br, raw, leg.party.addr)
    br.pump()
    ctx.step(name, (side, what, kind, name, len(w.sent)))
    # the same once more as it ought to be
    br.advance(0.6)
    acked = [x for x in w.sent if x[1].startswith('ACK') and Msg(x[1]).cid == t0.cid and Msg(x[1]).cseq[0] == t0.cseq[0]]
    if leg.pend is not None and leg.pend.cseq != t0.cseq:
        # challenge answered
        leg.answer_re(200, SDP['B'])
        br.pump()
    elif not acked or again:
        br.deliver(base.encode(), leg.party.addr)
        br.pump()
        if leg.pend is not None and leg.pend.cseq != t0.cseq:
            leg.answer_re(200, SDP['B'])
            br.pump()
    n = leg.pend
    for i in range(80):
        br.advance(0.5)
        if other.pend is not None:
            other.answer_re(200, SDP['E'])
            br.pump()
        if leg.pend is not None and leg.pend.cseq > t0.cseq and leg.pend is not n or leg.st == 'over':
            break
    else:
        if '486' not in name and '408' not in name and '481' not in name and code != 486:
            need(False, 'keepalive of the %s answered %s (%s): no further keepalive was sent', side, what, name)
    if leg.pend is not None:
        leg.answer_re(200, SDP['B'])
        br.pump()
    if leg.st != 'over':
        leg.bye()
        br.pump()
    br.advance(40)
    br.cmap.discAll()
    br.quiet_end(700.0)
    ctx.outcome = '%s %s %s' % (side, what, kind)


if __name__ == '__main__':
    def body():
        c = Check('C24', 'model_checking')
        phs = ('setup', 'ringing', 'connected', 'reinvite', 'over')
        def cfgs(strict, batch, kinds=('cut', 'bytes', 'lines', 'values', 'added', 'body')):
            return [dict(phase=ph, role=r, what=x, kind=k, strict=strict, batch=batch) for ph in phs for r in ('new', 'caller', 'callee') if r != 'new' or ph == 'ringing' for x in bases(ph, r) for k in kinds]
        c.explore('keepalive', ka, [dict(role=r, what=x, kind=k, again=g) for r in ('caller', 'callee') for g in c.q((False,), (False, True)) for x in (('401', '407', '200', '486', '500') if c.thorough else ('401', '200')) for k in ('lines', 'values', 'bytes')[:c.q(2, 3)]])
        c.explore('beyond use', scen, cfgs(True, 0))
        c.explore('odd', scen, cfgs(False, c.q(40, 1)))
        c.finish()
    main(body)
