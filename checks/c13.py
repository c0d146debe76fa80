"""C13: who is admitted.  Every combination of admission settings and callers, with every
kind of verdict at any moment, crossed with hang-ups and further calls."""
from b2b_model import *
import itertools

RT1 = "h323-ivr-in = 'Routing:5552@%s:%d'" % CALLEES['1']
VERDICTS = {
    'ok': ([RT1], 0), 'cli': (["h323-ivr-in = 'CLI:9999'", "h323-ivr-in = 'CNAM:Carol'", RT1, "h323-return-code = 'h323-return-code=0'"], 0),
    'nocli': (["h323-ivr-in = 'CLI:'", "h323-ivr-in = 'CNAM:'", RT1], 0),
    'noroute': (["h323-return-code = 'h323-return-code=0'"], 0), 'reject': ([], 1), 'reject2': ([RT1], 1), 'error': ([RT1], -1), 'died': None, 'junk': ([RT1, 'junk'], 0),
    'badroute': (["h323-ivr-in = 'Routing:5552@192.0.2.11:port'", RT1], 0), 'badopt': (["h323-ivr-in = 'Routing:5552@192.0.2.11;expires=soon'"], 0),
    'badgt': ([RT1[:-1] + ";gt=x'"], 0), 'badcr': (["h323-credit-time = 'h323-credit-time=lots'", RT1], 0), 'nocr': (["h323-credit-time = 'h323-credit-time=0'", RT1], 0),
    'avp': (["Cisco-AVPair = 'h323-ivr-in=Routing:5552@%s:%d'" % CALLEES['1'], "Reply-Message = 'hello'"], 0),
}
CRED = 'Digest username="%s", realm="the, realm", nonce="n=1,", uri="sip:x@y", response="abc", algorithm=MD5'


def want_verdict(v, authed, digest):
    """what becomes of the call: ('place', cli, name) or the final code"""
    if v in ('ok', 'avp'):
        return ('place', '1001', 'Alice')
    if v == 'cli':
        return ('place', '9999', 'Carol')
    if v == 'nocli':
        return ('place', None, '')
    if v in ('reject', 'reject2', 'error', 'died', 'junk'):
        return 401 if digest and not authed else 403
    return 500


def scen(ch, ctx, cfg):
    auth, dig, only, acc, acct = cfg['auth'], cfg['digest'], cfg['only'], cfg['accept'], cfg['acct']
    conf = [('auth_enable', auth), ('digest_auth', dig), ('digest_auth_only', only), ('acct_enable', acct)]
    if acc:
        conf.append(('accept_ips', acc))
    if auth == 'off':
        conf.append(('static_route', '5552@%s:%d' % CALLEES['1']))
    conf.append(('pre_auth_proc', 'HDR2Xattrs[X-Attrs]'))
    br = Bridge(dict(conf=conf))
    bad = br.add('Z', ('192.0.2.77', 5060))
    legs = []
    known = []              # AUTH requests seen
    state = {}              # leg -> what we know
    for i in range(cfg['depth']):
        acts = []
        if len(legs) < cfg.get('calls', 2):
            acts += [('call', 'A', None), ('call', 'A', 'user7'), ('call', 'A', ''), ('call', 'Z', None), ('call', 'A', 'nonum'), ('call', 'A', 'inj')]
        for k, l in enumerate(legs):
            if state[l] == 'wait':
                acts += [('v', k, v) for v in (VERDICTS if len(legs) == 1 and cfg['allv'] else ('ok', 'reject', 'died'))]
                acts += [('cancel', k), ('op', k), ('dup', k)]
            elif state[l] == 'gone':
                acts += [('v', k, 'ok'), ('v', k, 'reject')]
        if legs and not cfg.get('cycle'):
            acts += [('t', 3.0), ('t', 50.0)]
        a = acts[ch.choose(len(acts))]
        exp = []
        placed = None
        newreq = 0
        if a[0] == 'call':
            p = br.pA if a[1] == 'A' else bad
            extra = [('X-Attrs', 'k1=v 1;k2;k3=v3')]
            user = a[2]
            if user == 'nonum':
                user, num = None, ''
            else:
                num = '555%d' % len(legs) + ('%0a%0dUser-Name=%22root%22%0a%0a' if user == 'inj' else '')
            if user is not None:
                extra.append(('Authorization', CRED % user))
            leg = br.call(party=p, extra=extra, cld=num)
            legs.append(leg)
            state[leg] = 'over'
            leg.user, leg.num = user, num
            if acc and p.addr[0] not in acc.split(','):
                exp.append((leg, 403))
            elif auth == 'on' and dig == 'on' and only == 'on' and user is None:
                exp.append((leg, 401))
            elif num == '':
                exp.append((leg, 500))
            elif auth == 'on':
                state[leg] = 'wait'
                newreq = 1
            else:
                placed = (leg, '5552', '1001', 'Alice')
                state[leg] = 'placed'
        elif a[0] == 'v':
            leg = legs[a[1]]
            wi = leg.wi
            lines, code = VERDICTS[a[2]] or ([], '')
            if state[leg] == 'wait':
                w = want_verdict(a[2], leg.user is not None, dig == 'on')
                if isinstance(w, tuple):
                    placed = (leg, '5552', w[1], w[2])
                    state[leg] = 'placed'
                else:
                    exp.append((leg, w))
                    state[leg] = 'over'
            else:
                state[leg] = 'over'
            if a[2] == 'died':
                if not wi.cancelled:
                    try:
                        br.rad.process_result(wi.cb, (), *wi.params)
                    except Exception as e:
                        br.w.error(e)
            else:
                br.verdict(wi, lines, code)
        elif a[0] == 'cancel':
            leg = legs[a[1]]
            exp.append((leg, 487))
            state[leg] = 'gone'
            leg.cancel()
        elif a[0] == 'op':
            leg = legs[a[1]]
            exp.append((leg, 500))
            state[leg] = 'gone'
            for cc in tuple(br.cmap.ccmap):
                if str(cc.cId) == leg.cid:
                    cc.disconnect()
        elif a[0] == 'dup':
            legs[a[1]].send(legs[a[1]].inv.raw)
        else:
            br.advance(a[1])
        br.pump()
        got = br.take()
        # authorisation requests
        reqs = br.requests('AUTH')
        need(len(reqs) == len(known) + newreq, 'after %s: %d requests to the authority instead of %d', a, len(reqs), len(known) + newreq)
        if newreq:
            leg.wi = reqs[-1]
            known.append(leg.wi)
            check_auth(leg)
        inv = [x for x in got if not x[0].out and x[1] == 'INVITE']
        if placed:
            need(len(inv) == 1, 'an admitted call was not placed')
            m = inv[0][0].inv
            need(inv[0][0].name == '1' and minisip.uri(m.ruri).startswith('sip:5552@'), 'placed to %s', m.ruri)
            f = m.get('from')
            u = minisip.uri(f)
            need(u.startswith('sip:%s@' % placed[2]) if placed[2] else '@' not in u, 'placed with caller %s instead of %s', u, placed[2])
            need(f.split('<')[0].strip().strip('"') == placed[3], 'placed with caller name %s instead of %s', f, placed[3])
        else:
            need(not inv, 'after %s a call was placed that was not admitted', a)
        fin = [(x[0], x[3]) for x in got if x[0].out and x[1] == 'resp' and x[3] >= 200]
        if a == ('t', 50.0):
            # a callee who says nothing at all
            for l in legs:
                if state[l] == 'placed':
                    state[l] = 'over'
                    exp.append((l, 408))
        need(sorted(fin, key=str) == sorted(exp, key=str), 'after %s callers were told %s instead of %s', a, [(l.cid, c) for l, c in fin], [(l.cid, c) for l, c in exp])
        for l, c in exp:
            chal = [x for x in got if x[0] is l and x[1] == 'resp' and x[3] == 401]
            if c == 401:
                need(len(chal[0][6]) == 1 and chal[0][6][0].startswith('Digest '), '401 without a challenge: %s', chal[0][6])
                d = dict(re.findall(r'([\w-]+)="?([^",]*)"?', chal[0][6][0]))
                need(d.get('realm') == '10.0.0.1' and len(d.get('nonce', '')) > 8, 'challenge %s', chal[0][6])
                need(d['nonce'] not in state.setdefault('nonces', set()), 'nonce issued twice')
                state['nonces'].add(d['nonce'])
        ctx.step(str(a), (cfg['name'], tuple(state[l] for l in legs), a[0]))
    ctx.outcome = (cfg['name'], tuple(state[l] for l in legs))
    for l in legs:
        if l.st != 'over' and l.mine is not None:
            l.cancel()
    for l in br.legs:
        if not l.out and l.st == 'new':
            l.party.deaf = True
    br.pump()
    br.quiet_end()


def check_auth(leg):
    at = attrs(leg.wi.data)
    ip = getattr(leg, 'ip', leg.party.addr[0])
    w = {'Calling-Station-Id': ['1001'], 'Called-Station-Id': [leg.num], 'call-id': [leg.cid], 'h323-remote-address': [ip],
         'h323-session-protocol': ['sipv2'], 'k1': ['v 1'], 'k3': ['v3']}
    if leg.user:
        w.update({'User-Name': [leg.user], 'Digest-Realm': ['the, realm'], 'Digest-Nonce': ['n=1,'], 'Digest-Method': ['INVITE'], 'Digest-URI': ['sip:x@y'],
                  'Digest-User-Name': [leg.user], 'Digest-Response': ['abc'], 'Digest-Algorithm': ['MD5']})
    else:
        w.update({'User-Name': [ip], 'Password': ['cisco']})
    if leg.user == 'inj':
        # whatever is in there must not look like something else
        c = at.pop('Called-Station-Id')
        need(len(c) == 1 and c[0].startswith(w.pop('Called-Station-Id')[0][:4]), 'the authority was asked about %s', c)
    for l in leg.wi.data:
        need(not re.search(r'[\r\n\0]', l) and l.count('"') in (0, 2), 'a line that reads as several: %r', l)
    need(at == w, 'the authority was asked %s instead of %s', at, w)


ACC = '192.0.2.1,198.51.100.1'
VIA0 = {'own': None, 'forged': '198.51.100.1:5060', 'name': 'pc.example.com:5099', 'private': '192.168.1.1'}
VIA1 = {'none': (), 'plain': ('SIP/2.0/UDP 203.0.113.5:5070;branch=z9hG4bKup',), 'received': ('SIP/2.0/UDP 10.1.1.1:5070;received=203.0.113.6;branch=z9hG4bKup',),
        'rport': ('SIP/2.0/UDP 10.1.1.1;rport=4000;branch=z9hG4bKup;received=203.0.113.7',), 'forged': ('SIP/2.0/UDP 198.51.100.1;branch=z9hG4bKup',),
        'two': ('SIP/2.0/UDP 203.0.113.8;branch=z9hG4bKup', 'SIP/2.0/UDP 203.0.113.9;branch=z9hG4bKup2'),
        'list': ('SIP/2.0/UDP 203.0.113.8;branch=z9hG4bKup, SIP/2.0/UDP 203.0.113.9;branch=z9hG4bKup2',)}
VIAIP = {'plain': '203.0.113.5', 'received': '203.0.113.6', 'rport': '203.0.113.7', 'forged': '198.51.100.1', 'two': '203.0.113.8', 'list': '203.0.113.8'}


def whence(ch, ctx, cfg):
    """who is calling: where the datagram comes from decides on admission, the last place before a proxy is who he is"""
    conf = [('auth_enable', cfg['auth']), ('digest_auth', 'off'), ('acct_enable', cfg['acct']), ('start_acct_enable', cfg['acct']), ('pre_auth_proc', 'HDR2Xattrs[X-Attrs]')]
    if cfg['accept']:
        conf.append(('accept_ips', cfg['accept']))
    if cfg['auth'] == 'off':
        conf.append(('static_route', '5552@%s:%d' % CALLEES['1']))
    br = Bridge(dict(conf=conf))
    p = (br.pA, br.add('Z', ('192.0.2.77', 5060)), br.add('W', ('198.51.100.1', 6000)))[ch.choose(3)]
    v0, v1 = sorted(VIA0)[ch.choose(len(VIA0))], sorted(VIA1)[ch.choose(len(VIA1))]
    q = Party('caller', p.addr)         # answers go where the Via and the source say
    if VIA0[v0]:
        q.hostport = VIA0[v0]
        port = int(VIA0[v0].partition(':')[2] or 5060)
        p.deaf = True
        q.addr = (p.addr[0], port)
        br.parties[q.addr] = q
    q.upvias = list(VIA1[v1])
    leg = None
    src = p.addr
    br.deliver = lambda raw, addr: sim.deliver(br.w, br.tm, raw, src if addr == q.addr else addr)
    if not VIA0[v0]:
        br.parties[q.addr] = q
    user = (None, 'user7')[ch.choose(2)] if cfg['auth'] == 'on' else None
    extra = [('X-Attrs', 'k1=v 1;k2;k3=v3')]
    if user and cfg['digest']:
        extra.append(('Authorization', CRED % user))
    else:
        user = None
    br.call(party=q, extra=extra, cld='5550')
    leg = br.legs[-1]
    leg.user, leg.num = user, '5550'
    leg.ip = VIAIP.get(v1, src[0])
    ctx.step('%s %s %s %s' % (src, v0, v1, user), (cfg['name'], src, v0, v1))
    br.pump()
    got = br.take()
    ok = not cfg['accept'] or src[0] in cfg['accept'].split(',')
    if not ok:
        need([(x[0], x[3]) for x in got] == [(leg, 403)], 'from %s, accepted are %s: %s', src, cfg['accept'], got)
        need(not br.rad.items and not br.cmap.ccmap, 'refused, and yet there is a call')
        return
    if cfg['auth'] == 'on':
        need(len(br.requests('AUTH')) == 1, 'from %s: the authority was not asked, %s', src, got)
        leg.wi = br.requests('AUTH')[0]
        check_auth(leg)
        br.verdict(leg.wi, [RT1], 0)
        got = br.take()
    inv = [x for x in got if not x[0].out and x[1] == 'INVITE']
    need(len(inv) == 1, 'not placed: %s', got)
    B = inv[0][0]
    B.answer(200, SDP['B'])
    br.pump()
    need(leg.st == 'est', 'the answer did not arrive')
    leg.bye()
    br.pump()
    br.quiet_end()
    for wi in br.requests('ACCT'):
        at = attrs(wi.data)
        side = at['h323-call-origin'] == ['answer']
        need(at['h323-remote-address'] == [leg.ip if side else CALLEES['1'][0]], 'a record of the %s leg says %s', at['h323-call-origin'], at['h323-remote-address'])
        if side:
            need(at['User-Name'] == [user or leg.ip], 'accounted to %s', at['User-Name'])
    ctx.outcome = (cfg['name'], ok, v0 == 'own', v1, len(br.requests('ACCT')))


if __name__ == '__main__':
    def body():
        c = Check('C13', 'model_checking')
        c.explore('where from', whence, [dict(name='%s-%s-%s-%s' % x, auth=x[0], accept={'acc': ACC, 'any': ''}[x[1]], acct=x[2], digest=x[3]) for x in itertools.product(('on', 'off'), ('acc', 'any'), ('on', 'off'), (True, False)) if x[0] == 'on' or x[3]])
        L = []
        for auth, dig, only, acc, acct in itertools.product(('on', 'off'), ('on', 'off'), ('on', 'off'), ('', '192.0.2.1,198.51.100.1'), ('on', 'off')):
            if auth == 'off' and (dig, only) != ('on', 'on'):
                continue
            main_ = auth == 'on' and only == 'off'
            L.append(dict(name='-'.join((auth, dig, only, 'acc' if acc else 'any', acct)), auth=auth, digest=dig, only=only, accept=acc, acct=acct,
                          allv=main_, depth=c.q(3, 4)))
        c.explore('admission', scen, L)
        c.explore('long', scen, [dict(l, name='long %d %s' % (k, l['name']), depth=c.q(16, 40), cycle=k, calls=100) for k in c.q((1, 2), (1, 2, 3)) for l in L if k < 2 or l['allv']])
        c.finish()
    main(body)
