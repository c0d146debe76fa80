"""C26: route strings from an enumerated grammar through the real parser, with an independent statement of their meaning;
per-call customisation and copies; malformed strings of the enumerated kinds refused."""
from common import *
import itertools, re, socket
import urllib.parse as up


def resolver(host, port, family=0, type=0, proto=0, flags=0):
    """two names and numeric addresses"""
    H = {'10.0.0.9': [4], '192.168.1.255': [4], 'gw.example': [6, 4], 'gw4.example': [4, 4], 'gw6.example': [6], '2001:db8::9': [6], '::1': [6]}
    if host not in H:
        raise socket.gaierror(-2, 'Name or service not known')
    r = []
    for i, f in enumerate(H[host]):
        if family in (0, socket.AF_INET) and f == 4:
            a = host if host[0].isdigit() else '192.0.2.%d' % (7 + i)
            r.append((socket.AF_INET, socket.SOCK_STREAM, 6, '', (a, port)))
        if family in (0, socket.AF_INET6) and f == 6:
            a = host if ':' in host else '2001:db8::%d' % (7 + i)
            r.append((socket.AF_INET6, socket.SOCK_STREAM, 6, '', (a, port, 0, 0)))
    if not r:
        raise socket.gaierror(-9, 'Address family for hostname not supported')
    return r


socket.getaddrinfo = resolver
import sippy.B2B.Route as rt
rt.getaddrinfo = resolver
from sippy.SipHeader import SipHeader
from sippy.SipConf import SipConf
import sippy.B2B.Transforms as tr
B2BRoute = rt.B2BRoute

DESTS = [('10.0.0.9', '10.0.0.9', None, [('192.0.2.1', ('10.0.0.9', 0, True)), ('[::5]', ('10.0.0.9', 0, False))]),
         ('10.0.0.9:5070', '10.0.0.9', 5070, [('192.0.2.1', ('10.0.0.9', 5070, True))]),
         ('192.168.1.255:1', '192.168.1.255', 1, [('192.0.2.1', ('192.168.1.255', 1, True))]),
         ('gw4.example:65535', 'gw4.example', 65535, [('192.0.2.1', ('192.0.2.7', 65535, True)), ('[::5]', ('192.0.2.7', 65535, False))]),
         ('gw.example', 'gw.example', None, [('192.0.2.1', ('192.0.2.8', 0, True)), ('[::5]', ('[2001:db8::7]', 0, True))]),
         ('gw6.example:5062', 'gw6.example', 5062, [('192.0.2.1', ('[2001:db8::7]', 5062, False)), ('[::5]', ('[2001:db8::7]', 5062, True))]),
         ('[2001:db8::9]', '[2001:db8::9]', None, [('192.0.2.1', ('[2001:db8::9]', 0, False)), ('[::5]', ('[2001:db8::9]', 0, True))]),
         ('[2001:db8::9]:5071', '[2001:db8::9]', 5071, [('[::5]', ('[2001:db8::9]', 5071, True))]),
         ('sip-ua', 'sip-ua', None, []), ('wss-ua', 'wss-ua', None, [])]
CLDS = [None, '', '200110508667', 'a+b#1', 'x%40y', "it's"]


def num(name, attr):
    return [(name + '=%d' % n, {attr: n if n >= 0 else None}) for n in (0, 1, 30, 2147483647, -1)]


PARAMS = {
    'credit-time': [(t, dict(e, crt_set=True)) for t, e in num('credit-time', 'credit_time')],
    'expires': num('expires', 'expires'),
    'np_expires': num('np_expires', 'no_progress_expires'),
    'nr_expires': num('nr_expires', 'no_reply_expires'),
    'auth': [('auth=nopass', {'pass_auth': False}), ('auth=joe:secret', {'pass_auth': False, 'user': 'joe', 'passw': 'secret'}),
             ('auth=joe:a:b@c=d', {'pass_auth': False, 'user': 'joe', 'passw': 'a:b@c=d'}), ('auth=:', {'pass_auth': False, 'user': '', 'passw': ''})],
    'cli': [('cli=', {'cli': None, 'cli_set': True}), ('cli=16046288900', {'cli': '16046288900', 'cli_set': True}), ('cli=a=b', {'cli': 'a=b', 'cli_set': True})],
    'hs_scodes': [('hs_scodes=', {'p:huntstop_scodes': ()}), ('hs_scodes=486', {'p:huntstop_scodes': (486,)}), ('hs_scodes=404, 486,,600,', {'p:huntstop_scodes': (404, 486, 600)})],
    'forward_on_fail': [('forward_on_fail=1', {'forward_on_fail': True}), ('forward_on_fail=', {'forward_on_fail': True})],
    'cnam': [('cnam=Joe%20%3B%3D%22x%22', {'p:caller_name': 'Joe ;="x"'}), ('cnam=', {'p:caller_name': None}), ('cnam=Joe+B', {'p:caller_name': 'Joe+B'})],
    'ash': [('ash=Name%3AValue', {'x': [('name', 'Value')]}), ('ash=X-Foo%3A%20a%3Bb%3Dc', {'x': [('x-foo', 'a;b=c')]}), ('ash=Name:Value', {'x': [('name', 'Value')]}),
            ('ash=X-A%3A1;ash=X-B%3A%202', {'x': [('x-a', '1'), ('x-b', '2')]})],
    'rtpp': [('rtpp=0', {'p:rtpp': False}), ('rtpp=1', {'p:rtpp': True}), ('rtpp=5', {'p:rtpp': True})],
    'op': [('op=10.1.1.1', {'p:outbound_proxy': ('10.1.1.1', 5060)}), ('op=proxy.example:5080', {'p:outbound_proxy': ('proxy.example', 5080)})],
    'po_proc': [('po_proc=VAL2Xattrs[x=1,y=2]', {'po': ('VAL2Xattrs', [('x', '1'), ('y', '2')])}), ('po_proc=VAL2XattrsO[x=a[b]]', {'po': ('VAL2XattrsO', [('x', 'a[b]')])}),
                ('po_proc=Nop[]', {'po': ('Nop', None)}), ('po_proc=HDR2Xattrs[X-foo]', {'po': ('HDR2Xattrs', 'X-foo')})],
    'gt': [('gt=20,2', {'gt': (20, 2)}), ('gt=0,0', {'gt': (0, 0)}), ('gt=5, 1', {'gt': (5, 1)})],
    'other': [('rid=-1', {'p:rid': '-1'}), ('bill-to=joe', {'p:bill-to': 'joe'}), ('bill-cld=', {'p:bill-cld': ''}), ('bill-cli=a=b', {'p:bill-cli': 'a=b'}), ('foo=a b%20c', {'p:foo': 'a b%20c'})],
}
NAMES = list(PARAMS)
ATTRS = ['credit_time', 'crt_set', 'expires', 'no_progress_expires', 'no_reply_expires', 'pass_auth', 'user', 'passw', 'cli', 'cli_set', 'cld', 'cld_set',
         'forward_on_fail', 'hostport', 'hostonly']
DEFAULT = dict(credit_time=None, crt_set=False, expires=None, no_progress_expires=None, no_reply_expires=None, pass_auth=True, user=None, passw=None, cli=None,
               cli_set=False, cld=None, cld_set=False, forward_on_fail=False)


def show(h):
    return str(h)


def view(r):
    d = {a: getattr(r, a) for a in ATTRS}
    p = dict(r.params)
    po = p.pop('po_proc', None)
    gt = p.pop('gt', None)
    d['group_timeout'] = p.pop('group_timeout', None)
    d['po'] = None if po is None else (type(po).__name__, getattr(po, 'radius_parameters', getattr(po, 'hdr_name', None)))
    d['gt'] = None if gt is None else tuple(int(x) for x in gt.split(','))
    d['params'] = p
    d['x'] = [tuple(x.strip() for x in show(h).split(':', 1)) for h in r.extra_headers or ()]
    d['x'] = [(n.lower(), v) for n, v in d['x']]
    d['rnum'] = r.rnum
    return d


def meaning(dest, cld, parts):
    d = dict(DEFAULT, hostport=dest[0], hostonly=dest[1], params={}, x=[], po=None, gt=None, group_timeout=None, rnum=None)
    if cld is not None:
        d['cld'], d['cld_set'] = cld or None, True
    for _, e in parts:
        for k, v in e.items():
            if k.startswith('p:'):
                d['params'][k[2:]] = v
            elif k == 'x':
                d['x'] = d['x'] + v
            else:
                d[k] = v
    return d


def text(dest, cld, parts):
    return ';'.join([(cld + '@' if cld is not None else '') + dest[0]] + [p[0] for p in parts])


def same(got, want, what):
    if got != want:
        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        raise Violation('%s: %s' % (what, diff))


def nexthop(r, dest):
    for src, (a, p, same_af) in dest[3]:
        g = r.getNHAddr((src, 5060))
        need(tuple(g[0]) == (a, p or dest[2] or SipConf.default_port) and g[1] == same_af, 'next hop of %s for a caller at %s: %s', dest[0], src, g)


def pick_parts(ch, names):
    return [ch.pick(PARAMS[n]) for n in names]


def parsing(ch, ctx, cfg):
    dest = ch.pick(DESTS) if cfg['n'] < 3 else DESTS[ch.choose(2) * 7]
    cld = ch.pick(CLDS) if cfg['n'] < 2 else [None, '', '5551'][ch.choose(3)]
    names = cfg['names']
    parts = pick_parts(ch, names)
    if len(parts) > 1:
        parts = list(list(itertools.permutations(parts))[ch.choose([1, 1, 2, 6, 24][len(parts)])])
    t = text(dest, cld, parts)
    r = B2BRoute(t)
    m = meaning(dest, cld, parts)
    same(view(r), m, t)
    nexthop(r, dest)
    c = r.getCopy()
    same(view(c), m, 'copy of ' + t)
    nexthop(c, dest)
    ctx.step(t, t)
    ctx.outcome = str(len(names))


def customized(m, rnum, cld, cli, credit, ph, mx):
    m = dict(m, params=dict(m['params']), x=list(m['x']))
    m['rnum'] = rnum
    if not m['cld_set']:
        m['cld'] = cld
    if not m['cli_set']:
        m['cli'] = cli
    if not m['crt_set']:
        m['credit_time'] = credit
    if m['gt']:
        m['group_timeout'] = (m['gt'][0], rnum + m['gt'][1])
    m['x'] = m['x'] + ph
    if mx is not None and (m['credit_time'] is None or m['credit_time'] > mx):
        m['credit_time'] = mx
    return m


CALLS = [(1, '111', '222', None, [], None), (2, None, None, 300, [('x-p', '1')], 60), (1, 'a', 'b', 0, [('x-p', '2'), ('x-q', '3')], 5000), (9, '', '', 30, [], 30)]


def custom(ch, ctx, cfg):
    """three calls over one configured route: each gets the configured meaning and its own customisation, none leaves a trace"""
    dest = DESTS[0]
    cld = [None, '', '5551'][ch.choose(3)]
    parts = pick_parts(ch, cfg['names'])
    t = text(dest, cld, parts)
    base = B2BRoute(t)
    m = meaning(dest, cld, parts)
    made = []
    for i in range(cfg['calls']):
        rnum, dcld, dcli, cred, ph, mx = CALLS[ch.choose(len(CALLS))]
        c = base.getCopy() if i != 1 or not ch.choose(2) else base.getCopy().getCopy()
        hs = [SipHeader('%s: %s' % h) for h in ph]
        c.customize(rnum, dcld, dcli, cred, hs, mx)
        made.append((c, customized(m, rnum, dcld, dcli, cred, ph, mx)))
        same(view(base), m, 'configured route %s after call %d' % (t, i))
        for j, (x, w) in enumerate(made):
            same(view(x), w, 'route of call %d over %s after call %d' % (j, t, i))
        ctx.step('call', (t, i, rnum))
    # what is done to the route of one call stays there
    c, w = made[0]
    c.cli, c.cld = 'changed', 'changed'
    c.params['foo'] = 'changed'
    for h in c.extra_headers or ():
        h.body.body = 'changed'
    same(view(base), m, 'configured route %s after a change to a copy' % t)
    for x, w in made[1:]:
        same(view(x), w, 'route of another call after a change')
    d = made[-1][0].getCopy()
    same(view(d), made[-1][1] if len(made) > 1 else view(made[-1][0]), 'copy of the route of a call') if len(made) > 1 else None
    ctx.outcome = 'ok'


BADDEST = ['nowhere.example', '10.0.0.9:', '10.0.0.9:x', '10.0.0.9:5060x', '10.0.0.9:99999', '10.0.0.9:-1', '10.0.0.9:0', '', '@', '5@', '[2001:db8::9', '[2001:db8::9]x5060', '[2001:db8::9]5060',
           '[]', '[10.0.0.9]', '[2001:db8::9]:', '[2001:db8::9]:y', '10.0.0.9:5060:5061', '2001:db8::9', '5@nowhere.example', '[gw4.example]', '[2001:db8::9]:70000']
BADPART = ['', 'foo', 'forward_on_fail', 'credit-time', 'credit-time=', 'credit-time=x', 'credit-time=1.5', 'credit-time=10s', 'expires=', 'expires=x', 'np_expires=x', 'np_expires=', 'nr_expires=x',
           'nr_expires=', 'hs_scodes=x', 'hs_scodes=404,x', 'auth=joe', 'auth=', 'rtpp=', 'rtpp=yes', 'op=proxy:', 'op=proxy:x', 'po_proc=', 'po_proc=Nop', 'po_proc=Nop[', 'po_proc=Unknown[x]',
           'po_proc=VAL2Xattrs[x]', 'po_proc=VAL2Xattrs[x=1,y]', 'po_proc=[x]', 'gt=', 'gt=5', 'gt=x,1', 'gt=5,x', 'gt=5,1,2', 'ash=', 'ash=nocolon']


def malformed(ch, ctx, cfg):
    names = cfg['names']
    parts = [p[0] for p in pick_parts(ch, names)]
    if cfg['what'] == 'dest':
        t = ';'.join([ch.pick(BADDEST)] + parts)
    else:
        i = ch.choose(len(parts) + 1)
        b = ch.pick(BADPART)
        t = ';'.join(['5@10.0.0.9'] + parts[:i] + [b] + parts[i:])
    try:
        r = B2BRoute(t)
    except Exception as e:
        ctx.step(t, t)
        ctx.outcome = type(e).__name__
        return
    raise Violation('malformed route %r is taken as %s' % (t, view(r)))


if __name__ == '__main__':
    def body():
        c = Check('C26', 'model_checking')
        sets = lambda n: [list(x) for x in itertools.combinations(NAMES, n)]
        L = [dict(n=n, names=s) for n in (0, 1, 2) for s in sets(n)]
        c.explore('parsing', parsing, L)
        L3 = sets(3)
        c.explore('parsing3', parsing, [dict(n=3, names=s) for s in (L3 if c.thorough else L3[::4])])
        if c.thorough:
            c.explore('parsing4', parsing, [dict(n=4, names=s) for s in sets(4)[::9]])
        c.explore('customisation', custom, [dict(names=s, calls=c.q(2, 3)) for n in (0, 1, 2) for s in sets(n)] + [dict(names=s, calls=3) for n in (0, 1) for s in sets(n)])
        c.explore('malformed', malformed, [dict(names=s, what=w) for n in (0, 1, 2) for s in sets(n) for w in ('dest', 'part')])
        c.finish()
    main(body)
