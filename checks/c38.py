"""C38: NAT traversal.  Peers that believe in addresses nobody can reach: with nat_traversal they are answered and
called where their datagrams come from; everybody else, and everybody when it is off, is taken by his word."""
import c10
from c10 import *
ME = ('10.0.0.1', 5060)
PRIV = ['10.0.0.0', '10.255.255.255', '10.1.2.3', '172.16.0.0', '172.31.255.255', '172.20.1.1', '192.168.0.0', '192.168.255.255', '192.168.1.5']
PUB = ['9.255.255.255', '11.0.0.0', '172.15.255.255', '172.32.0.0', '192.167.255.255', '192.169.0.0', '192.0.2.77', '127.0.0.1', '100.64.0.1', '169.254.1.1',
       '0.0.0.0', '255.255.255.254', 'pbx.example.com', '10.example.com', '[2001:db8::5]', 'x.invalid']
NOWHERE = ['255.255.255.255']
SRC = [('192.0.2.9', 5070), ('192.168.7.7', 6000)]


def priv(h):
    p = h.split('.')
    if len(p) != 4 or not all(x.isdigit() for x in p):
        return False
    a, b = int(p[0]), int(p[1])
    return a == 10 or a == 172 and 16 <= b <= 31 or (a, b) == (192, 168)


def ctext(host, port, form):
    u = 'sip:bob@%s%s' % (host, '' if port is None else ':%d' % port)
    return {'b': '<%s>' % u, 'n': '"Bob" <%s;transport=udp>;expires=60' % u, 'p': u, '2': '<%s>, <sip:other@10.9.9.9:5099>' % u}[form]


def split_contact(v):
    m = re.match(r'(.*?sip:bob@)(\[[^\]]*\]|[^:;>,]*)(?::(\d+))?(.*)$', v)
    return m.groups()


def want_contact(v, repl):
    """host, port replaced, nothing else"""
    if repl is None:
        return v
    a, h, p, z = split_contact(v)
    return '%s%s%s%s' % (a, repl[0], ':%d' % repl[1] if repl[1] is not None else '', z)


def canon(v):
    v = re.sub(r'\s*([,;])\s*', r'\1', v).strip()
    if '<' not in v:
        v = re.sub(r'^([^,]*)', r'<\1>', v)
    v = re.sub(r'"(\w+)" ', r'\1 ', v)
    return v.replace(':5060>', '>').replace(':5060;', ';')


class Srv:
    pass


def newtm(nat):
    w = sim.World()
    got = []

    def cb(req, t):
        got.append(req)
        return (req.genResponse(200, 'OK') if req.getMethod() != 'ACK' else None, None, None)
    tm = sim.mk_stm(w, cb)
    tm.nat_traversal = nat
    w.advance(0.1)
    return w, tm, got


def reqs(ch, ctx, cfg):
    """one request of every kind: what the application gets, where the answer goes"""
    w, tm, got = newtm(cfg['nat'])
    method = cfg['method']
    src = SRC[ch.choose(2)]
    vh = [src[0], '192.0.2.55', '192.168.1.5', '10.3.3.3', 'q7h.invalid', 'pc.example.com'][ch.choose(6)]
    vp = [None, src[1], 5099][ch.choose(3)]
    rport = bool(ch.choose(2))
    nvia = 1 + ch.choose(2)
    hosts = cfg['hosts']
    n = ch.choose(len(hosts) * 3 + 2)
    star = contact = None
    if n == 0:
        pass
    elif n == 1:
        contact = star = '*'
    else:
        host = hosts[(n - 2) // 3]
        port = (None, 5066, 0)[(n - 2) % 3]
        contact = ctext(host, port, cfg['form'])
    vias = ['SIP/2.0/UDP %s%s;branch=z9hG4bKx%s' % (vh, '' if vp is None else ':%d' % vp, ';rport' if rport else '')]
    if nvia == 2:
        vias.append('SIP/2.0/UDP 10.7.7.7:5061;branch=z9hG4bKup')
    raw = minisip.request(method, 'sip:5551@10.0.0.1', '<sip:a@192.0.2.1>;tag=1', '<sip:b@10.0.0.1>', 'c1', 1, '', '', contact=contact, vias=vias, extra=(('X-Note', 'kept'),))
    tr = cfg.get('transport', 'udp')
    ctx.step('%s %s %s %s %s %s' % (src, vh, vp, rport, nvia, contact), (vh, vp, contact))
    sim.deliver(w, tm, raw, src, tr)
    need(not w.errors, 'exception: %s', w.errors[:1])
    need(len(got) == 1, 'handed to the application %d times', len(got))
    req = got[0]
    # the contact
    repl = None
    if contact and not star and nvia == 1:
        if cfg['nat'] and (priv(host) or port == 0 or host in NOWHERE):
            repl = src
        if tr == 'wss':
            repl = (src[0], repl[1] if repl else port)
    m = Msg(raw)
    text = Msg(str(req))
    c = text.all('contact')
    exp = [x for x in (re.split(r',\s*(?=<)', want_contact(contact, repl)) if contact else [])]
    need([canon(x) for x in c] == [canon(x) for x in exp], 'contact %s of a %s from %s came out as %s, expected %s', contact, method, src, c, exp)
    # the rest
    for h in ('from', 'to', 'call-id', 'cseq', 'max-forwards', 'x-note'):
        need([canon(x) for x in text.all(h)] == [canon(x) for x in m.all(h)], '%s changed into %s', h, text.all(h))
    need(text.ruri == m.ruri, 'the target became %s', text.ruri)
    need(text.all('via')[1:] == m.all('via')[1:], 'further Vias became %s', text.all('via'))
    # the way back
    forced = cfg['nat'] and tr != 'wss' and (priv(vh) or vh.endswith('.invalid')) and vp != src[1]
    dest = (src[0], src[1] if rport or forced else vp or 5060)
    sent = [(s[2], Msg(s[1])) for s in w.sent]
    if method != 'ACK':
        need(len(sent) == 1 and sent[0][1].code == 200, 'answered with %s', sent)
        need(sent[0][0] == dest, 'answer to a request from %s with Via %s went to %s, expected %s', src, vias[0], sent[0][0], dest)
    sim.deliver(w, tm, raw, src, tr)
    if method != 'ACK':
        need(len(got) == 1 and len(w.sent) == 2 and w.sent[1][2] == dest and w.sent[1][1] == w.sent[0][1], 'a repeat was not answered alike')
    ctx.outcome = (cfg['name'], repl is None, forced, rport)


def resps(ch, ctx, cfg):
    """one answer of every kind"""
    w, tm, got = newtm(cfg['nat'])
    from sippy.SipRequest import SipRequest
    from sippy.SipAddress import SipAddress
    from sippy.SipURL import SipURL
    from sippy.SipFrom import SipFrom
    from sippy.SipTo import SipTo
    from sippy.SipCallId import SipCallId
    to = [('192.0.2.9', 5070), ('192.168.7.7', 5070), ('10.0.0.9', 5060)][ch.choose(3)]
    src = [to, ('192.0.2.99', 6007)][ch.choose(2)]
    code = (180, 200, 302, 486)[ch.choose(4)]
    hosts = cfg['hosts']
    n = ch.choose(len(hosts) * 3 + 2)
    contact = star = None
    if n == 1:
        contact = star = '*'
    elif n:
        host = hosts[(n - 2) // 3]
        port = (None, 5066, 0)[(n - 2) % 3]
        contact = ctext(host, port, cfg['form'])
    if star and cfg['method'] == 'INVITE':
        contact = star = None
    seen = []
    r = SipRequest(method=cfg['method'], ruri=SipURL('sip:bob@%s:%d' % to), to=SipTo(address=SipAddress('<sip:bob@x.example>')), fr0m=SipFrom(address=SipAddress('<sip:me@10.0.0.1>;tag=f')),
                   callid=SipCallId('c1'), cseq=1, target=(to, 'udp') if cfg.get('v2') else (to, 'udp'))
    tm.newTransaction(r, seen.append)
    inv = Msg(w.sent[-1][1])
    tr = cfg.get('transport', 'udp')
    ctx.step('%s %s %s %s' % (to, src, code, contact), (to, code, contact))
    raw = minisip.response(inv, code, 'Reason', 'tt', contact)
    w.advance(0.01)
    sim.deliver(w, tm, raw, src, tr)
    need(not w.errors, 'exception: %s', w.errors[:1])
    need(len(seen) == 1, 'the answer was handed over %d times', len(seen))
    repl = None
    if contact and not star:
        if cfg['nat'] and not priv(to[0]) and priv(host):
            repl = src
        if tr == 'wss' and code != 302:
            repl = (src[0], repl[1] if repl else port)
    text = Msg(str(seen[0]))
    exp = re.split(r',\s*(?=<)', want_contact(contact, repl)) if contact else []
    c = text.all('contact')
    need([canon(x) for x in c] == [canon(x) for x in exp], 'contact %s of a %d from %s to a request sent to %s came out as %s, expected %s', contact, code, src, to, c, exp)
    if code == 200 and cfg['method'] == 'INVITE' and contact:
        ack = [s for s in w.sent if s[1].startswith('ACK')]
        need(len(ack) == 1, '%d ACKs', len(ack))
        a, h, p, z = split_contact(exp[0])
        need(ack[0][2] == (h, int(p or 5060)), 'ACK went to %s, contact %s', ack[0][2], exp[0])
    ctx.outcome = (cfg['name'], repl is None, code)


if __name__ == '__main__':
    def body():
        c = Check('C38', 'model_checking')
        hosts = PRIV + PUB + NOWHERE
        few = c.q(['10.1.2.3', '192.168.1.5', '192.0.2.77', '255.255.255.255', 'pbx.example.com'], hosts)
        L = []
        for nat in (True, False):
            for method, form, hs, tr in [('INVITE', 'b', hosts, 'udp'), ('INVITE', 'n', few, 'udp'), ('INVITE', 'p', few, 'udp'), ('INVITE', '2', few, 'udp'), ('REGISTER', 'n', few, 'udp'), ('OPTIONS', 'b', few, 'udp'), ('BYE', 'b', few, 'udp'),
('SUBSCRIBE', 'b', few, 'udp'), ('INVITE', 'b', few, 'wss'), ('REGISTER', 'n', few, 'wss')]:
                L.append(dict(name='%s %s %s%s' % (method, form, tr, ' nat' if nat else ''), nat=nat, method=method, form=form, hosts=hs, transport=tr))
        c.explore('requests', reqs, L)
        L = []
        for nat in (True, False):
            for method, form, hs, tr in [('INVITE', 'b', hosts, 'udp'), ('INVITE', 'n', few, 'udp'), ('INVITE', 'p', few, 'udp'), ('INVITE', '2', few, 'udp'), ('REGISTER', 'n', few, 'udp'), ('OPTIONS', 'b', few, 'udp'), ('INVITE', 'b', few, 'wss')]:
                L.append(dict(name='%s %s %s%s' % (method, form, tr, ' nat' if nat else ''), nat=nat, method=method, form=form, hosts=hs, transport=tr))
        c.explore('answers', resps, L)
        N = (('nat_traversal', 'on'),)
        d = c.q(4, 5)
        ins = [({'A': '192.168.1.5:5061'}, 'caller'), ({'1': '10.2.2.2:5060'}, 'callee'), ({'A': '192.168.1.5:40000', '1': '192.168.1.5:5060'}, 'both'), ({}, 'none')]
        c.explore('calls', c10.scen, [dict(name='nat-%s-%s%s' % (n, late, ka), inside=i, conf=N + ka, late=late, depth=d) for i, n in ins for late in (False, True) for ka in ((), (('hide_call_id', 'on'),))])
        e = c.q(3, 4)
        both = ins[2][0]
        c.explore('crossings', c10.cross, [dict(name='nat start', depth=e, inside=both, conf=N), dict(name='nat ringing', depth=e, pre=(180,), inside=both, conf=N), dict(name='nat up', depth=e, pre=(200,), inside=both, conf=N)], max_cost=c.q(1, 2))
        c.finish()
    main(body)
