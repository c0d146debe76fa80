"""C37: the real start-up code (command line, configuration file, written-out state) with everything it starts replaced by
recorders: every option with valid, boundary and invalid values from every source and pair of sources."""
from common import *
import contextlib, io, itertools, os, shutil, tempfile, types
BASE = tempfile.mkdtemp(prefix='c37-')
_owner = os.getpid()


def cleanup():
    if os.getpid() == _owner:
        os.chdir('/')
        shutil.rmtree(BASE, ignore_errors=True)


def scratch():
    d = '%s/%d' % (BASE, os.getpid())
    if os.getcwd() != d:
        os.makedirs(d, exist_ok=True)
        os.chdir(d)


runner.CLEAN.append(cleanup)
import sippy.b2bua as bb
from sippy.SipConf import SipConf
REC = None


class Rec:
    def __init__(self):
        self.made = []
        self.gc = None
        self.looped = False


def recorder(name, ret=None):
    def f(*a, **k):
        for x in a:
            if isinstance(x, bb.MyConfigParser):
                REC.gc = x
        o = types.SimpleNamespace(a=a, k=k, name=name, set_rtp_io_socket=lambda *a: None, shutdown=lambda *a: None, recvRequest=lambda *a: None,
                                  handleIncoming=None, notify_socket=None)
        REC.made.append(o)
        return o
    return f


class UiMod(types.ModuleType):
    UIController = staticmethod(recorder('ui'))


for n in ('SipLogger', 'RadiusAuthorisation', 'CallMap', 'B2BSimpleAPI', 'Rtp_proxy_client', 'StatefulProxy', 'SipTransactionManager', 'Wss_server',
          'Wss_server_opts', 'Signal', 'daemonize'):
    setattr(bb, n, recorder(n))
sys.modules['sippy.UI.Controller'] = UiMod('sippy.UI.Controller')


class Loop:
    def loop(self, *a, **k):
        REC.looped = True


bb.ED2 = Loop()

# ---- what the options are, written down independently
B = {'on': True, 'off': False, 'yes': True, 'no': False, '1': True, '0': False, 'true': True, 'false': False, 'On': True, 'FALSE': False, ' yes ': True}
I = {'0': 0, '1': 1, '15': 15, ' 32 ': 32, '2147483648': 2147483648}
S = {'x': 'x', '/a b/c': '/a b/c', 'a=b:c;d#e': 'a=b:c;d#e', ' pad ': 'pad', '%(x)s': '%(x)s', '': '', '[y]': '[y]', '#z': '#z', ';': ';'}
badB, badI = ['', '2', 'y', 'enable', '-1'], ['', 'x', '1.5', '1e3', '10s', 'on']
OPT = {}
for k in ('acct_enable', 'precise_acct', 'digest_auth', 'hide_call_id', 'start_acct_enable', 'digest_auth_only', 'nat_traversal', 'ui', 'foreground', 'auth_enable'):
    OPT[k] = (B, badB)
for k in ('alive_acct_int', 'max_radiusclients', 'xmpp_b2bua_id'):
    OPT[k] = (I, badI)
for k in ('keepalive_ans', 'keepalive_orig'):
    OPT[k] = (I, badI + ['-1'])
OPT['max_credit_time'] = ({'1': 1, '3600': 3600, ' 5': 5}, badI + ['0', '-1'])
OPT['sip_port'] = ({'1': 1, '5060': 5060, '65535': 65535, ' 5070 ': 5070}, badI + ['0', '-1', '65536'])
for k in ('b2bua_socket', 'logfile', 'radiusclient.conf', 'static_tr_in', 'static_tr_out', 'uiparams'):
    OPT[k] = (S, [])
OPT['pidfile'] = ({'pid': 'pid', './p i;d#=': './p i;d#='}, [])
OPT['sip_address'] = ({k: k for k in ('10.0.0.1', '*', '0.0.0.0', '::', '[2001:db8::1]')}, [])
OPT['static_route'] = ({'10.0.0.9': '10.0.0.9', '5@10.0.0.9:5070;cli=x;expires=5': '5@10.0.0.9:5070;cli=x;expires=5', ' sip-ua ': 'sip-ua'}, ['10.0.0.9:x', '10.0.0.9;expires=x', '10.0.0.9;foo', ''])
OPT['allowed_pts'] = ({'0': '0', '8,0,18': '8,0,18', '[G722],101': '[G722],101', ' 3, 4': '3, 4'}, ['', 'x', '0,,8', 'PCMU', '8,[x'])
OPT['pass_headers'] = ({'X-Foo': 'X-Foo', 'x-a, X-B': 'x-a, X-B'}, [])
OPT['accept_ips'] = ({'10.0.0.1': '10.0.0.1', '10.0.0.1, 10.0.0.2,[::1]': '10.0.0.1, 10.0.0.2,[::1]'}, [])
OPT['rtp_proxy_clients'] = ({'udp:10.0.0.5': 'udp:10.0.0.5', '/var/run/rtpproxy.sock, udp:h:1': '/var/run/rtpproxy.sock, udp:h:1'}, [])
OPT['sip_proxy'] = ({'10.0.0.6': '10.0.0.6', 'p.example:5080': 'p.example:5080'}, ['10.0.0.6:x', '10.0.0.6:'])
OPT['wss_socket'] = ({'10.0.0.1:443:/c:/k': '10.0.0.1:443:/c:/k', 'h:1:/c d:/k:l': 'h:1:/c d:/k:l'}, ['h', 'h:x:/c:/k', 'h:1', 'h:1:/c'])
OPT['pre_auth_proc'] = ({'HDR2Xattrs[X-foo]': 'HDR2Xattrs[X-foo]', 'Nop[]': 'Nop[]'}, ['', 'Nop', 'Unknown[x]', 'HDR2Xattrs[x'])
SHORT = {'sip_address': 'l', 'sip_port': 'p', 'pidfile': 'P', 'logfile': 'L', 'static_route': 's', 'accept_ips': 'a', 'static_tr_in': 't', 'static_tr_out': 'T',
         'max_credit_time': 'm', 'allowed_pts': 'F', 'radiusclient.conf': 'R', 'b2bua_socket': 'c', 'max_radiusclients': 'M', 'pre_auth_proc': 'x',
         'rtp_proxy_clients': 'r', 'pass_headers': 'h'}
FLAGS = {('-f',): {'foreground': True}, ('-D',): {'digest_auth': False}, ('-u',): {'auth_enable': False}, ('-H',): {'hide_call_id': True},
         ('-A', '0'): {'acct_enable': False, 'start_acct_enable': False}, ('-A', '1'): {'acct_enable': True, 'start_acct_enable': False},
         ('-A', ' 2'): {'acct_enable': True, 'start_acct_enable': True}, ('-k', '0'): {'keepalive_ans': 0, 'keepalive_orig': 0}, ('-k', '1'): {'keepalive_ans': 32},
         ('-k', '2'): {'keepalive_orig': 32}, ('-k', '3'): {'keepalive_ans': 32, 'keepalive_orig': 32}}
DEFAULT = {'digest_auth': True, 'start_acct_enable': False, 'keepalive_ans': 0, 'keepalive_orig': 0, 'auth_enable': True, 'acct_enable': True, 'foreground': False,
           'pidfile': '/var/run/b2bua.pid', 'logfile': '/var/log/b2bua.log', 'b2bua_socket': '/var/run/b2bua.sock'}
BOOLS = {'0': False, 'off': False, 'no': False, 'false': False}
SAFE = ['--pidfile=pid.0']


def start(argv):
    """run the start-up code; returns the recorder, or an error"""
    global REC
    REC = Rec()
    scratch()
    oa, od = sys.argv, os.getcwd()
    sys.argv = ['b2bua.py'] + argv
    err = io.StringIO()
    oe, sys.__stderr__ = sys.__stderr__, err
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            bb.main_func()
    except SystemExit as e:
        need(e.code not in (0, None), 'start-up refused with exit code %r: %s', e.code, argv)
        return None
    except Exception as e:
        return None
    finally:
        sys.argv = oa
        sys.__stderr__ = oe
    need(REC.looped, 'start-up ended without entering the loop: %s', argv)
    need(REC.gc is not None, 'no configuration handed to anything: %s', argv)
    return REC


_n = [0]


def fname():
    _n[0] += 1
    scratch()
    return 'f%d' % (_n[0] % 1000)


def cfile(pairs):
    f = fname()
    with open(f, 'w') as o:
        o.write('[general]\n' + ''.join('%s = %s\n' % p for p in pairs))
    return f


def src(how, k, v):
    """arguments giving option k the text v"""
    if how == 'long':
        return ['--%s=%s' % (k, v)]
    if how == 'sep':
        return ['--' + k, v]
    if how == 'short':
        return ['-' + SHORT[k], v]
    if how == 'glued':
        return ['-' + SHORT[k] + v]
    if how == 'file':
        return ['-C', cfile([(k, v)])]
    if how == 'lfile':
        return ['--config=' + cfile([(k, v)])]
    if how == 'file2':
        f = fname()
        with open(f, 'w') as o:
            o.write('# comment\n[general]\n; comment\n\n%s: %s\n' % (k.upper(), v))
        return ['-C', f]


def sources(k, v):
    r = ['long', 'sep', 'file', 'lfile', 'file2']
    if k in SHORT and not (k == 'rtp_proxy_clients' and ',' in v):
        r.append('short')
        if v:
            r.append('glued')
    return r


def squeeze(s):
    return [x.strip() for x in s.split(',')] if isinstance(s, str) else s


def expect(what, rec, want, argv):
    """every option reads back as wanted, in type and value; everything not wanted is not there; and is used as said"""
    gc = rec.gc
    for k in OPT:
        if k in want:
            need(k in gc and gc.has_key(k), '%s: %s not there: %s', what, k, argv)
            g = gc[k]
            a, b = (squeeze(x) if k in ('pass_headers', 'rtp_proxy_clients') else x for x in (g, want[k]))
            need(type(g) is type(want[k]) and a == b, '%s: %s is %r, not %r: %s', what, k, g, want[k], argv)
            need(gc.get(k) == g and gc.getdefault(k, 'dflt') == g, '%s: %s reads differently', what, k)
        else:
            need(k not in gc, '%s: %s is there although never given: %s', what, k, argv)
            need(gc.getdefault(k, 'dflt') == 'dflt', '%s: %s has no default', what, k)
    sa = want.get('sip_address')
    need(gc['_sip_address'] is SipConf.my_address if sa in (None, '*', '0.0.0.0', '::') else gc['_sip_address'] == sa, '%s: local address %r for %r', what, gc['_sip_address'], sa)
    sp = want.get('sip_port')
    need(gc['_sip_port'] == (sp or SipConf.my_port), '%s: local port %r for %r', what, gc['_sip_port'], sp)
    for k in ('allowed_pts', 'accept_ips'):
        need(('_' + k in gc) == (k in want), '%s: %s', what, k)
    if 'allowed_pts' in want:
        w = [x.strip() for x in want['allowed_pts'].split(',')]
        need(gc['_allowed_pts'] == [x[1:-1] if x[0] == '[' else int(x) for x in w], '%s: formats %r', what, gc['_allowed_pts'])
    if 'accept_ips' in want:
        need(gc['_accept_ips'] == [x.strip() for x in want['accept_ips'].split(',')], '%s: %r', what, gc['_accept_ips'])
    need([x.lower() for x in gc['_pass_headers']] == [x.strip().lower() for x in want.get('pass_headers', '').split(',') if x], '%s: headers passed %r, wanted %r', what, gc['_pass_headers'], want.get('pass_headers'))
    need(('_pre_auth_proc' in gc) == ('pre_auth_proc' in want), '%s: pre_auth_proc', what)
    if 'pre_auth_proc' in want:
        need(type(gc['_pre_auth_proc']).__name__ == want['pre_auth_proc'].split('[')[0], '%s: pre_auth_proc', what)
    # what was started
    by = {}
    for m in rec.made:
        by.setdefault(m.name, []).append(m)
    need(('ui' in by) == want.get('ui', False), '%s: UI started: %s, ui=%s', what, 'ui' in by, want.get('ui'))
    need(('RadiusAuthorisation' in by) == (want['auth_enable'] or want['acct_enable']), '%s: Radius client', what)
    need(('daemonize' in by) == (not want['foreground']), '%s: daemon %s', what, 'daemonize' in by)
    if not want['foreground']:
        need(by['daemonize'][0].k.get('logfile', (by['daemonize'][0].a + (None,))[0]) == want['logfile'], '%s: daemon log', what)
        with open(want['pidfile']) as f:
            need(f.read().strip() == str(os.getpid()), '%s: pid file', what)
        os.unlink(want['pidfile'])
    need(('StatefulProxy' in by) == ('sip_proxy' in want), '%s: proxy', what)
    if 'sip_proxy' in want:
        h = want['sip_proxy'].split(':') + ['5060']
        need(by['StatefulProxy'][0].a[1] == (h[0], int(h[1])), '%s: proxy at %s', what, by['StatefulProxy'][0].a[1])
    need(('Wss_server' in by) == ('wss_socket' in want), '%s: wss', what)
    if 'wss_socket' in want:
        o = by['Wss_server_opts'][0]
        h, p, c, k = want['wss_socket'].split(':', 3)
        need(o.a[0] == (h, int(p)) and o.k == {'certfile': c, 'keyfile': k}, '%s: wss %s %s', what, o.a, o.k)
    rc = [m for m in by.get('Rtp_proxy_client', [])]
    need([m.k['spath'] for m in rc] == [x.strip() for x in want.get('rtp_proxy_clients', '').split(',') if x], '%s: relays %s', what, [m.k for m in rc])
    for m in rc:
        need(m.notify_socket == want['b2bua_socket'], '%s: notify socket', what)
    if rc:
        need(gc['_rtp_proxy_clients'] == rc, '%s: relay list', what)
    tm = by['SipTransactionManager'][0]
    need(tm.nat_traversal == want.get('nat_traversal', False), '%s: NAT', what)
    need((gc['_xmpp_mode'] if '_xmpp_mode' in gc else False) == ('xmpp_b2bua_id' in want), '%s: xmpp', what)
    need(('_static_routes' in gc) == ('static_route' in want), '%s: static routes', what)
    if 'static_route' in want:
        r = gc['_static_routes']['']
        need(r.hostport == want['static_route'].split(';')[0].split('@')[-1], '%s: static route', what)


def val(k, v):
    return OPT[k][0][v]


def base(argv=()):
    w = dict(DEFAULT, pidfile='pid.0')
    return w


EXTRA = ['--static_route=10.0.0.8']


def allowed(w):
    return w['auth_enable'] or 'static_route' in w


def single(ch, ctx, cfg):
    k = cfg['opt']
    v = ch.pick(list(OPT[k][0]))
    how = ch.pick(sources(k, v))
    pre = ch.choose(2)
    w = base()
    argv = list(SAFE)
    if pre:
        argv += EXTRA
        w['static_route'] = '10.0.0.8'
    argv += src(how, k, v)
    w[k] = val(k, v)
    r = start(argv)
    if not allowed(w):
        need(r is None, 'started without any way to route calls')
        ctx.outcome = 'refused'
        return
    need(r is not None, 'start-up refused: %s', argv)
    expect('%s %s=%r' % (how, k, v), r, w, argv)
    ctx.step(how, (k, v, how))
    # written out and read back
    f = fname()
    r = start(argv + ['-W', f])
    need(r is not None, 'start-up refused with -W: %s', argv)
    expect('written', r, w, argv)
    r = start(SAFE + ['-C', f])
    need(r is not None, 'start-up refused with the written state of %s', argv)
    expect('read back', r, w, argv)
    ctx.outcome = k


def invalid(ch, ctx, cfg):
    k = cfg['opt']
    if not OPT[k][1]:
        return
    v = ch.pick(OPT[k][1])
    how = ch.pick(sources(k, v))
    pos = ch.choose(3)
    good = [['--sip_port=5070'], ['-H'], []][ch.choose(3)]
    argv = SAFE + (EXTRA if k != 'static_route' else [])
    argv = [argv + src(how, k, v) + good, argv + good + src(how, k, v), src(how, k, v) + argv + good][pos]
    r = start(argv)
    need(r is None, 'started with %s=%r given by %s', k, v, how)
    ctx.step(how, (k, v, how, pos))
    ctx.outcome = k


BADARGS = [['--nosuch=1'], ['--nosuch'], ['-Z'], ['-z', '1'], ['--sip_port'], ['-p'], ['--keepalive=1'], ['-A', '3'], ['-A', 'x'], ['-A', '-1'], ['-k', '4'], ['-k', 'x'], ['-k', '-1'], ['--sip-port=5060'],
           ['-C', '/nonexistent/file'], ['--config=' + BASE], '[general]\nnosuch = 1\n', '[general]\nsip_port 5060\n', 'sip_port = 5060\n', '[general]\nsip_port = 1\nsip_port = 2\n', '[general\nsip_port = 1\n',
           '[general]\nrtp_proxy_client = udp:x\n', '[general]\n_sip_port = 1\n', '[general]\nsip_port = 5060\nnosuch = 1\n']


def unknown(ch, ctx, cfg):
    b = ch.pick(BADARGS)
    if isinstance(b, str):
        f = fname()
        with open(f, 'w') as o:
            o.write(b)
        b = ['-C', f]
    good = ch.pick([[], ['--sip_port=5070'], ['-f', '-H']])
    argv = SAFE + EXTRA + (b + good if ch.choose(2) else good + b)
    need(start(argv) is None, 'started with %s', argv)
    ctx.step('bad', str(b))
    ctx.outcome = 'refused'


def twice(ch, ctx, cfg):
    """the same option from two sources: the later one counts"""
    k = cfg['opt']
    vs = list(OPT[k][0])[:4]
    v1, v2 = ch.pick(vs), ch.pick(vs)
    h1, h2 = ch.pick(['long', 'file'] + ['short'] * (k in SHORT)), ch.pick(['long', 'file'] + ['short'] * (k in SHORT))
    argv = SAFE + EXTRA + src(h1, k, v1) + src(h2, k, v2)
    w = dict(base(), static_route='10.0.0.8')
    w[k] = val(k, v2)
    if k in ('rtp_proxy_clients', 'pass_headers') and h2 == 'short':
        # these two add to what is there
        w[k] = val(k, v1) + ',' + val(k, v2)
    r = start(argv)
    need(r is not None, 'start-up refused: %s', argv)
    if k in ('rtp_proxy_clients', 'pass_headers') and k in r.gc:
        split = lambda s: [x.strip() for x in s.split(',')]
        need(split(r.gc[k]) == split(w[k]), '%s: %r, not %r: %s', k, r.gc[k], w[k], argv)
        w[k] = r.gc[k]
    if k == 'rtp_proxy_clients' and 'short' in (h1, h2):
        sp = [m.k['spath'] for m in r.made if m.name == 'Rtp_proxy_client']
        need([x.strip() for x in ','.join(sp).split(',')] == [x.strip() for x in w[k].split(',')], 'relays %s: %s', sp, argv)
        return
    if k == 'pass_headers' and 'short' in (h1, h2):
        need([x.lower() for x in r.gc['_pass_headers']] == [x.strip().lower() for x in w[k].split(',')], 'headers %s: %s', r.gc['_pass_headers'], argv)
        return
    expect('%s=%r by %s, then %r by %s' % (k, v1, h1, v2, h2), r, w, argv)
    ctx.step('twice', (k, v1, v2, h1, h2))
    ctx.outcome = k


def pairs(ch, ctx, cfg):
    """two different options from all sources in both orders"""
    a, b = cfg['a'], cfg['b']
    va, vb = ch.pick(list(OPT[a][0])[:2]), ch.pick(list(OPT[b][0])[:2])
    k = ch.choose(5)
    if k == 4:
        args = ['-C', cfile([(a, va), (b, vb)])]
    else:
        ha, hb = [('long', 'long'), ('long', 'file'), ('file', 'long'), ('file', 'file')][k]
        args = src(ha, a, va) + src(hb, b, vb)
    argv = SAFE + EXTRA + args
    w = dict(base(), static_route='10.0.0.8')
    w[a] = val(a, va)
    w[b] = val(b, vb)
    f = fname()
    r = start(argv + ['-W', f])
    need(r is not None, 'start-up refused: %s', argv)
    expect('pair', r, w, argv)
    r = start(SAFE + ['-C', f])
    need(r is not None, 'start-up refused with the written state of %s', argv)
    expect('pair read back', r, w, argv)
    ctx.step('pair', (a, b, va, vb, k))
    ctx.outcome = a


def flags(ch, ctx, cfg):
    """the short flags, over a configuration file saying otherwise, in all orders up to the bound"""
    w = dict(base(), static_route='10.0.0.8')
    argv = SAFE + EXTRA
    if cfg['file'] is not None:
        argv += ['-C', cfile(list(cfg['file'].items()))]
        for k, v in cfg['file'].items():
            w[k] = val(k, v)
    seq = [cfg['first']] + [ch.pick(list(FLAGS)) for _ in range(cfg['n'] - 1)]
    for f in seq:
        argv += [f[0]] + list(f[1:])
        w.update(FLAGS[f])
    if cfg.get('end'):
        argv += ['--config=' + cfile(list(cfg['end'].items()))]
        for k, v in cfg['end'].items():
            w[k] = val(k, v)
    r = start(argv)
    need(r is not None, 'start-up refused: %s', argv)
    expect('flags', r, w, argv)
    ctx.step('flags', str(argv[2:]))
    ctx.outcome = 'ok'


def relays(ch, ctx, cfg):
    """repeated -r and -h"""
    R = ['udp:10.0.0.5', '/var/run/x.sock', 'rtp.io:-6']
    w = dict(base(), static_route='10.0.0.8')
    argv = SAFE + EXTRA
    rl, hl = [], []
    for i in range(cfg['n']):
        if ch.choose(2):
            x = ch.pick(R)
            rl.append(x)
            argv += ['-r', x]
        else:
            x = ch.pick(['X-Foo', 'x-b,x-c', ' y '])
            hl += [y.strip() for y in x.split(',')]
            argv += ['-h', x]
    r = start(argv)
    need(r is not None, 'start-up refused: %s', argv)
    sp = [m for m in r.made if m.name == 'Rtp_proxy_client']
    need([m.k['spath'] for m in sp] == rl, 'relays %s: %s', [m.k['spath'] for m in sp], argv)
    for m in sp:
        need(m.k['spath'].startswith('rtp.io:') or m.notify_socket == w['b2bua_socket'], 'notify socket')
        need(('nsetup_f' in m.k) == m.k['spath'].startswith('rtp.io:'), 'relay set up with %s', m.k)
    need([x.lower() for x in r.gc['_pass_headers']] == [x.lower() for x in hl], 'headers %s: %s', r.gc['_pass_headers'], argv)
    if rl:
        need(r.gc['rtp_proxy_clients'] == ','.join(rl), 'relays read back as %s', r.gc['rtp_proxy_clients'])
    if hl:
        need(r.gc['pass_headers'] == ','.join(hl), 'headers read back as %s', r.gc['pass_headers'])
    f = fname()
    start(argv + ['-W', f])
    r = start(SAFE + ['-C', f])
    need(r is not None, 'start-up refused with the written state of %s', argv)
    need([m.k['spath'] for m in r.made if m.name == 'Rtp_proxy_client'] == rl, 'relays after reading back: %s', argv)
    need([x.lower() for x in r.gc['_pass_headers']] == [x.lower() for x in hl], 'headers after reading back: %s', argv)
    ctx.step('r', str(argv))
    ctx.outcome = 'ok'


if __name__ == '__main__':
    def body():
        c = Check('C37', 'model_checking')
        K = list(OPT)
        c.explore('single', single, [dict(opt=k) for k in K])
        c.explore('invalid', invalid, [dict(opt=k) for k in K])
        c.explore('unknown', unknown, [{}])
        c.explore('twice', twice, [dict(opt=k) for k in K])
        c.explore('pairs', pairs, [dict(a=a, b=b) for a, b in itertools.permutations(K, 2)])
        fl = [None, {'keepalive_ans': '15', 'keepalive_orig': '1', 'acct_enable': 'off', 'start_acct_enable': 'on', 'digest_auth': 'on', 'hide_call_id': 'no', 'foreground': 'no', 'auth_enable': 'yes'}]
        L = [dict(first=f, n=n, file=x) for f in FLAGS for n in (1, 2, c.q(2, 3)) for x in fl if not (x and f[0] == '-k' and f[1] in '12')]
        L += [dict(first=f, n=1, file=None, end={k: v}) for f in FLAGS for k, v in (('keepalive_ans', '15'), ('acct_enable', 'off'), ('digest_auth', 'on'), ('foreground', 'no'))]
        L = [dict(l, file=None) if l['file'] and l['n'] > 1 else l for l in L]
        c.explore('flags', flags, L)
        c.explore('lists', relays, [dict(n=n) for n in (1, 2, 3, c.q(3, 4))])
        c.finish()
    main(body)
