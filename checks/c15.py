"""C15: what the outgoing call looks like, for every combination of configuration, route and
incoming call; pairs of calls in one process, so that nothing of one shows in the other."""
from hashlib import md5
from urllib.parse import unquote
from b2b_model import *

TR = {'': [], 'plus': [('^00', '+', '')], 'glob': [('5', '6', 'g'), ('6', '7', '')], 'two': [('^555(.)$', '9\\g<1>8', ''), ('8', '88', 'g')], 'miss': [('x', 'y', '')]}


def tr_text(rules):
    return ';'.join('s/%s/%s/%s' % r for r in rules)


def tr_apply(rules, s):
    for p, r, m in rules:
        s = re.sub(p, r, s, count=0 if m == 'g' else 1)
    return s


def C(cld='5551', cli='1001', name='"Alice" ', body=SDP['A'], mf=70, extra=(), host='10.0.0.1', **kw):
    return dict(kw, cld=cld, cli=cli, name=name, body=body, mf=mf, extra=extra, host=host)


CALLS = {
    'plain': C(), 'hdr': C(extra=[('X-A', '1; a="b, c"'), ('x-b', '<sip:u@h>;q'), ('X-A', '2'), ('X-C', 'no'), ('Subject', 'sub')]), 'a2': C('5559', extra=[('X-A', 'other')]),
    'nomf': C(mf=None), 'mf0': C(mf=0), 'mf1': C(mf=1), 'mf2': C(mf=2), 'mf255': C(mf=255),
    'noname': C(name='', cli='1002'), 'nocli': C(cli='', name='"X \\"Y\\" z" '), 'tok': C(name='Al Ice '), 'esc': C('00%2b12;x=y', cli='a%40b%20c'), 'plus': C('0049123', cli='+7'),
    'late': C(body=''), 'nat': C('nat-5551'), 'natlate': C('nat-5558', body=''), 'nocld': C(''), 'othhost': C(host='sip.example.com:5080'),
    'reason': C(extra=[('Reason', 'SIP;cause=302;text="moved"'), ('Record-Route', '<sip:192.0.2.1:5061;lr>'), ('Alert-Info', '<http://x/y>'), ('Require', 'a')]),
}
RTS = {'num': '5552@%h', 'same': '%h', 'none': '@%h', 'tail': '55588@%h;cli=42;cnam=Rob%20B;ash=X-R%3A%20r1;ash=X-R%3A%20r2', 'back': '777@sip-ua', 'op': '5552@%h;op=192.0.2.12:5062',
       'opback': '5552@%h;op=192.0.2.1:5061', 'anon': '00555@%h;cli=;cnam='}


def route_text(r):
    return RTS[r].replace('%h', '%s:%d' % CALLEES['1'])


def scen(ch, ctx, cfg):
    rules_in, rules_out = TR[cfg['in']], TR[cfg['out']]
    if 'routes' in cfg:
        conf = [('auth_enable', 'on'), ('digest_auth', 'off')]
    else:
        conf = [('auth_enable', 'off'), ('static_route', route_text(cfg['route']))]
    if rules_in:
        conf.append(('static_tr_in', tr_text(rules_in)))
    if rules_out:
        conf.append(('static_tr_out', tr_text(rules_out)))
    if cfg.get('pass'):
        conf.append(('pass_headers', cfg['pass']))
    if cfg.get('hide'):
        conf.append(('hide_call_id', 'on'))
    br = Bridge(dict(conf=conf))
    br.gc['_uaname'] = 'My UA 1.0'
    made = []
    for n in range(cfg['depth']):
        names = cfg['calls']
        k = names[ch.choose(len(names))]
        call(br, cfg, CALLS[k], made)
        ctx.step(k, (cfg['name'], k))
    ctx.outcome = (cfg['name'], k)
    for A in made:
        if A.mine is not None:
            A.cancel()
        elif A.st == 'est':
            A.bye()
    for l in br.legs:
        if not l.out and l.st == 'new':
            l.party.deaf = True
    br.pump()
    br.quiet_end()


def call(br, cfg, c, made):
    p = br.pA
    A = Leg(br, p, 'call%d@a.b' % br.uniq(), True)
    p.legs[A.cid] = A
    br.legs.append(A)
    ruri = 'sip:%s@%s' % (c['cld'], c['host']) if c['cld'] else 'sip:' + c['host']
    frm = c['name'] + '<sip:%s%s>' % (c['cli'] + '@' if c['cli'] else '', p.addr[0])
    A.invite(ruri, frm, '<sip:who@there.example>', c['body'], c['extra'], c['mf'])
    br.pump()
    if 'routes' in cfg and br.requests():
        L = ["h323-ivr-in = 'Routing:%s'" % route_text(r) for r in cfg['routes']]
        br.verdict(br.requests()[-1], cfg.get('rad', []) + L, 0)
        del br.rad.items[:]
    got = br.take()
    resp = [x for x in got if x[0] is A and x[3] >= 200]
    inv = [x for x in got if x[1] == 'INVITE' and not x[0].out]
    if not c['cld']:
        need(not inv and [x[3] for x in resp] == [500], 'a call to nobody: %s', got)
        return
    if c['mf'] is not None and c['mf'] <= 1:
        need(not inv and [x[3] for x in resp] == [483], 'a call with Max-Forwards %s: %s', c['mf'], got)
        return
    made.append(A)
    for n, route in enumerate(cfg.get('routes') or [cfg['route']]):
        if n:
            B.answer(503)
            br.pump()
            got, resp = br.take(), []
        B = check_out(br, cfg, c, A, got, resp, route, n + 1)
    # and back
    B.answer(183, SDP['C'], extra=[('X-A', 'back'), ('Server', 'Callee/2')])
    br.pump()
    got = [x for x in br.take() if x[0] is A]
    need(len(got) == 1 and got[0][3] == 183 and got[0][5] == SDP['C'], 'progress: %s', got)
    r = Msg([s for s in br.w.sent if s[2] == A.party.addr and A.cid in s[1] and A.cid + '-b2b' not in s[1]][-1][1])
    need(not r.all('x-a') and r.get('server', 'My UA 1.0') == 'My UA 1.0' and minisip.uri(r.get('contact', '<sip:10.0.0.1:5060>')).split('@')[-1].replace('sip:', '') in ('10.0.0.1:5060', '10.0.0.1'), 'answer %s', r.raw)


def check_out(br, cfg, c, A, got, resp, route, rnum):
    rt = RTS[route]
    inv = [x for x in got if x[0] is not A and x[1] == 'INVITE']
    need(len(inv) == 1 and not resp, 'the call was not placed: %s', got)
    B = inv[0][0]
    m = B.inv
    # where to
    exp = {'back': CALLER, 'op': CALLEES['2']}.get(route, CALLEES['1'])
    need(B.party.addr == exp, 'the call went to %s instead of %s', B.party.addr, exp)
    num = unquote(c['cld'])
    num = num.split(';')[0]
    nat = num.startswith('nat-')
    if nat:
        num = num[4:]
    num = tr_apply(TR[cfg['in']], num)
    t = rt.split(';')[0]
    if '@' in t:
        num = t.split('@')[0] or None
    if num is not None:
        num = tr_apply(TR[cfg['out']], num)
    host = '%s:%d' % CALLEES['1'] if route != 'back' else '%s:%d' % CALLER
    w = (num, host.replace(':5060', ''))
    for what, u in (('Request-URI', minisip.uri(m.ruri)), ('To', minisip.uri(m.get('to')))):
        u, h = (unquote(u[4:].split('@')[0]), u.split('@')[1]) if '@' in u else (None, u[4:])
        h = h.split(';')[0].replace(':5060', '')
        if what == 'To':
            h, wh = h.split(':')[0], w[1].split(':')[0]
        else:
            wh = w[1]
        need((u, h) == (w[0], wh), '%s is %s@%s instead of %s@%s', what, u, h, w[0], wh)
    # from whom
    cli = unquote(c['cli']) or None
    nm = c['name'].strip()
    nm = nm[1:-1].replace('\\"', '"') if nm.startswith('"') else nm
    if cfg.get('rad'):
        cli, nm = '77', 'Radius N'
    if 'cli=' in rt:
        cli, nm = ('42', 'Rob B') if route == 'tail' else (None, '')
    f = m.get('from')
    u = minisip.uri(f)
    need((unquote(u[4:].split('@')[0]) if '@' in u else None) == cli, 'caller is %s instead of %s', u, cli)
    g = f.split('<')[0].strip()
    g = g[1:-1].replace('\\"', '"') if g.startswith('"') else g
    need(g == nm, 'name of the caller is %r instead of %r', g, nm)
    need(u.split('@')[-1].replace('sip:', '').split(':')[0] == '10.0.0.1', 'From is at %s', u)
    # hops, identity
    need(m.all('max-forwards') == [str(70 if c['mf'] is None else c['mf'] - 1)], 'Max-Forwards %s for %s', m.all('max-forwards'), c['mf'])
    if cfg.get('hide'):
        need(A.cid not in m.raw and m.cid == md5(A.cid.encode()).hexdigest() + '-b2b_%d' % rnum, 'Call-ID %s', m.cid)
    else:
        need(m.cid == A.cid + '-b2b_%d' % rnum, 'Call-ID %s for %s', m.cid, A.cid)
    need(m.ftag and A.ltag not in m.raw, 'tag of the caller is used')
    need(minisip.uri(m.get('contact')).split('@')[-1].replace('sip:', '') in ('10.0.0.1:5060', '10.0.0.1') and len(m.all('via')) == 1, 'Contact %s, Via %s', m.get('contact'), m.all('via'))
    need(m.all('user-agent') == ['My UA 1.0'], 'User-Agent %s', m.all('user-agent'))
    # headers
    want = []
    if 'ash=' in rt:
        want += [('x-r', 'r1'), ('x-r', 'r2')]
    for h in cfg.get('pass', '').split(','):
        want += [(n.lower(), v) for n, v in c['extra'] if n.lower() == h.lower()]
    if any(n == 'Reason' for n, v in c['extra']) and not any(n == 'reason' for n, v in want):
        want.append(('reason', 'SIP;cause=302;text="moved"'))
    std = ('via', 'max-forwards', 'from', 'to', 'call-id', 'cseq', 'contact', 'user-agent', 'content-type', 'content-length', 'expires', 'h323-conf-id', 'cisco-guid')
    have = [(n.lower(), v) for n, v in m.h if n.lower() not in std]
    nz = lambda L: sorted((n, v.replace(' ', '')) for n, v in L)
    need(nz(have) == nz(want), 'headers %s instead of %s', have, want)
    need([x for x in have if x[0] == 'x-a'] == [x for x in want if x[0] == 'x-a'], 'order of %s', have)
    # body
    wb = c['body']
    if wb and nat:
        wb += 'a=nated:yes\r\n'
    need(m.body == wb, 'body %r instead of %r', m.body, wb)
    need(m.get('content-length', '0').strip() == str(len(wb)), 'Content-Length')
    return B


if __name__ == '__main__':
    def body():
        c = Check('C15', 'model_checking')
        L = []
        names = list(CALLS)
        for route in RTS:
            for i in TR:
                for o in TR:
                    if (i, o) != ('', '') and route in ('op', 'opback') or route == 'back' and i and o:
                        continue
                    L.append(dict(name='-'.join((route, i, o)), route=route, calls=names, depth=1, **{'in': i, 'out': o}))
        for route in ('num', 'tail', 'same'):
            for p in ('', 'x-a', 'X-B,X-A', 'x-a,x-none,subject', 'Alert-Info'):
                for hide in (False, True):
                    L.append(dict(name='-'.join((route, p, str(hide))), route=route, calls=['plain', 'hdr', 'a2', 'nat', 'esc', 'reason', 'noname', 'mf2'], depth=c.q(2, 3), **{'in': '', 'out': '', 'pass': p, 'hide': hide}))
        c.explore('invite', scen, L)
        L = []
        for routes in (('num', 'tail', 'op'), ('tail', 'num', 'same'), ('op', 'opback', 'none'), ('anon', 'back', 'same', 'tail', 'num')):
            for i, o, p, hide, rad in (('', '', 'X-B,X-A', False, 0), ('two', 'glob', '', False, 1), ('plus', 'two', 'x-a,subject', True, 0)):
                L.append(dict(name='+'.join(routes) + i + p, routes=routes, calls=list(CALLS), depth=c.q(1, 2), hide=hide,
                              rad=["h323-ivr-in = 'CLI:77'", "h323-ivr-in = 'CNAM:Radius N'"] if rad else [], **{'in': i, 'out': o, 'pass': p}))
        c.explore('further routes', scen, L)
        c.finish()
    main(body)
