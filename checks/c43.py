"""C43: on a host with several addresses everything leaves by the address facing its
destination and names that address; the sockets are opened once each and closed at the end."""
import socket as _socket
from common import *

stm = sim.std_setup()
from sippy.SipRequest import SipRequest
from sippy.SipURL import SipURL
from sippy.SipTo import SipTo
from sippy.SipFrom import SipFrom
from sippy.SipAddress import SipAddress
from sippy.SipContact import SipContact
from sippy.SipCallId import SipCallId
from sippy.SipHeader import SipHeader
from sippy.SipConf import SipConf
import sippy.Udp_server as us
from sippy.Udp_server import Udp_server, Udp_server_opts
from minisip import Msg
sim.seed_tokens()

DST = {'a': ('192.0.2.10', 5060), 'a2': ('192.0.2.10', 5099), 'b': ('198.51.100.10', 5070), 'v': ('[2001:db8:1::10]', 5060), 'w': ('[2001:db8:2::10]', 5071), 'n': ('peer.example.com', 5080)}
NAMES = {'peer.example.com': '198.51.100.77'}
MINE = ('10.1.0.1', '10.2.0.1', '2001:db8:1::1', '2001:db8:2::1')
LINKS = {'192.0.2.10': '10.1.0.1', '198.51.100.10': '10.2.0.1', '198.51.100.77': '10.2.0.1', '2001:db8:1::10': '2001:db8:1::1', '2001:db8:2::10': '2001:db8:2::1'}
PORT = 5062


class Net:
    cur = None

    def __init__(self, v6):
        self.v6 = v6
        self.links = dict(LINKS)
        self.servers = []
        self.socks = []
        self.others = []
        self.probes = 0


class Probe:
    """a socket: asks the system which address faces a destination, or is bound and serves one"""
    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, *a):
        if family == _socket.AF_INET6 and not Net.cur.v6:
            raise OSError(97, 'Address family not supported by protocol')
        self.family, self.type, self.peer, self.bound, self.opts, self.closed = family, type, None, None, set(), False

    def connect(self, addr):
        need(self.type == _socket.SOCK_DGRAM, 'a connection is made')
        need((':' in addr[0]) == (self.family == _socket.AF_INET6), 'address %s of another family', addr)
        need('[' not in addr[0], 'address %s', addr)
        self.peer = NAMES.get(addr[0], addr[0])
        Net.cur.probes += 1

    def setsockopt(self, level, opt, val):
        (self.opts.add if val else self.opts.discard)((level, opt))

    def bind(self, addr):
        ip = addr[0]
        need(self.bound is None and not self.closed, 'bound twice')
        need((':' in ip) == (self.family == _socket.AF_INET6), 'socket bound to %s', addr)
        need(ip in ('0.0.0.0', '::') + MINE, 'socket bound to %s, which is not ours', ip)
        need(addr[1] == PORT, 'socket bound to port %s', addr[1])
        me = Other(ip, addr[1], [o for o in REUSE if (_socket.SOL_SOCKET, o) in self.opts], (_socket.IPPROTO_IPV6, _socket.IPV6_V6ONLY) in self.opts)
        for s in Net.cur.others + [s.bound for s in Net.cur.socks if not s.closed]:
            if me.clash(s):
                raise OSError(98, 'Address already in use')
        for s in Net.cur.socks:
            need(s.closed or s.bound.ip != ip, 'second socket for %s', addr)
        self.bound = me
        Net.cur.socks.append(self)

    def getsockname(self):
        if self.bound:
            a, p = self.bound.ip, self.bound.port
        else:
            a, p = Net.cur.links[self.peer], 40000
        return (a, p) if self.family == _socket.AF_INET else (a, p, 0, 0)

    def shutdown(self, how):
        raise OSError(107, 'Transport endpoint is not connected')

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


REUSE = (_socket.SO_REUSEADDR, _socket.SO_REUSEPORT)


class Other:
    """somebody's bound socket, and when Linux lets another one be bound beside it"""
    def __init__(self, ip, port, reuse, v6only=False):
        self.ip, self.port, self.reuse, self.v6only = ip, port, reuse, v6only

    def meets(self, o):
        if (':' in self.ip) == (':' in o.ip):
            return self.ip == o.ip or self.ip in ('0.0.0.0', '::') or o.ip in ('0.0.0.0', '::')
        six, four = (self, o) if ':' in self.ip else (o, self)
        return six.ip == '::' and not six.v6only

    def clash(self, o):
        return self.port == o.port and self.meets(o) and not set(self.reuse) & set(o.reuse)


class FakeSocket:
    socket = Probe
    has_ipv6 = True

    def __getattr__(self, n):
        return getattr(_socket, n)

    def getaddrinfo(self, host, port, family=0, *a, **k):
        ip = NAMES.get(host, host)
        if ':' in ip:
            return [(_socket.AF_INET6, 1, 6, '', (ip, port or 0, 0, 0))]
        return [(_socket.AF_INET, 1, 6, '', (ip, port or 0))]


class Worker:
    def __init__(self, userv):
        pass

    def join(self, *a):
        pass


class Server(Udp_server):
    """the real one, but what is queued is taken by nobody but us"""
    down = False

    def __init__(self, *a):
        Udp_server.__init__(self, *a)
        Net.cur.servers.append(self)

    def send_to(self, data, address, *a, **k):
        need(not self.down, 'sent by a socket already closed')
        need((':' in address[0]) == (self.uopts.family == _socket.AF_INET6), 'sent to %s by a socket of another family', address)
        Udp_server.send_to(self, data, address, *a, **k)
        while not self.sendqueue.empty():
            data, addr = self.sendqueue.get()
            need('[' not in addr[0], 'address %s given to the socket', addr)
            sim.World.cur.sent.append((sim.now(), data.decode('utf-8'), (br(addr[0]), int(addr[1])), self))

    def shutdown(self):
        Udp_server.shutdown(self)
        self.down = True
        need(self.skt.closed, 'socket left open')


def facing(dest):
    ip = dest[0].strip('[]')
    return Net.cur.links[NAMES.get(ip, ip)]


def br(ip):
    return '[%s]' % ip if ':' in ip else ip


REAL = us.AsyncSender, us.AsyncReceiver


def scen(ch, ctx, cfg):
    try:
        return scen1(ch, ctx, cfg)
    finally:
        stm.socket = us.socket = _socket
        us.AsyncSender, us.AsyncReceiver = REAL
        stm.SipTransactionManager.model_udp_server = (sim.FakeUdp, sim.FakeOpts)


def scen1(ch, ctx, cfg):
    w = sim.World()
    n = Net.cur = Net(cfg.get('v6', True))
    stm.socket = us.socket = FakeSocket()
    us.AsyncSender = us.AsyncReceiver = Worker
    stm.SipTransactionManager.model_udp_server = (Server, Udp_server_opts)
    fixed = cfg.get('fixed')
    if fixed:
        Net.cur.links = {k: fixed for k in LINKS}
    gc = {'_sip_address': br(fixed) if fixed else SipConf.my_address, '_sip_port': PORT, '_sip_logger': sim.NullLogger()}
    reqs = []

    def req_cb(req, t):
        reqs.append(req)
        r = req.genResponse(180 if cfg.get('prov') else 200, 'OK')
        r.appendHeader(SipHeader(body=SipContact(address=SipAddress(url=SipURL(username='me', host=SipConf.my_address, port=SipConf.my_port)))))
        return (r, None, None)
    taken = None
    if cfg.get('others'):
        n.others = [ch.pick([Other(ip, p, r, False) for ip in cfg['others'] for p in (PORT, PORT + 1) for r in ((), REUSE[:1], REUSE)])]
        mine = [fixed] if fixed else ['0.0.0.0'] + ['::'] * n.v6
        taken = [ip for ip in mine if Other(ip, PORT, (), True).clash(n.others[0])]
    try:
        tm = gc['_sip_tm'] = stm.SipTransactionManager(gc, req_cb)
    except OSError as e:
        need(taken, 'starting fails: %s', e)
        need(all(s.closed for s in n.socks), 'sockets left open')
        ctx.outcome = 'in use'
        return
    need(not taken, 'started, although port %d of %s is in use by somebody else', PORT, taken)
    live = [s for s in n.servers if not s.down]
    if fixed:
        need([s.uopts.laddress[0] for s in live] == [fixed], 'listening on %s', [s.uopts.laddress for s in live])
    else:
        need(sorted(s.uopts.laddress[0] for s in live) == ['0.0.0.0'] + ['::'] * n.v6, 'listening on %s', [s.uopts.laddress for s in live])
    wild = {(':' in s.uopts.laddress[0]): s for s in live}
    txs, mark, gen = [], 0, 0
    last = {}       # when a destination was last used
    for i in range(cfg['depth']):
        acts = [('out', d) for d in cfg['dst']] + [('in', d) for d in cfg['dst'] if d != 'n']
        acts += [('resp', k) for k, t in enumerate(txs) if t['left']]
        if cfg.get('inv'):
            acts += [('resp', k, c) for k, t in enumerate(txs) if t['left'] for c in (180, 486) if c > 200 or not t.get('prov')]
            acts += [('cancel', k) for k, t in enumerate(txs) if t['left'] and not t.get('gone')]
        acts += [('t', 0.6), ('t', 33.0)]
        if cfg.get('local'):
            acts += [('local', m) for m in cfg['local']]
        if cfg.get('moves') and not [t for t in txs if t['left']]:
            acts.append(('move',))
        a = acts[ch.choose(len(acts))]
        got = []
        if a[0] in ('out', 'local'):
            gen += 1
            d = DST[a[1]] if a[0] == 'out' else DST['v' if ':' in a[1] else 'a']
            fr = SipFrom(address=SipAddress(url=SipURL(username='me', host=SipConf.my_address, port=SipConf.my_port)))
            fr.setTag('f%d' % gen)
            m = SipRequest(method='INVITE' if cfg.get('inv') else 'OPTIONS', ruri=SipURL('sip:x@%s:%d' % d), fr0m=fr, to=SipTo(address=SipAddress(url=SipURL('sip:x@y.example'))), callid=SipCallId('out%d' % gen), cseq=gen,
                           contact=SipContact(address=SipAddress(url=SipURL(username='me', host=SipConf.my_address, port=SipConf.my_port))), target=(d, 'udp'))
            t = dict(got=[], left=True, d=d, ip=facing(d), at=sim.now())
            k = {}
            if a[0] == 'local':
                t['ip'] = a[1] if not fixed else fixed
                k['laddress'] = (br(a[1]), PORT)
            t['tx'] = tm.newTransaction(m, t['got'].append, **k)
            got = w.sent[mark:]
            need(len(got) == 1, '%d datagrams for one request', len(got))
            t['raw'], t['msg'], t['srv'] = got[0][1], Msg(got[0][1]), got[0][3]
            txs.append(t)
            judge(got[0], d, t['ip'], a)
            need(t['msg'].get('via').split(' ')[1].split(';')[0] == '%s:%d' % (br(t['ip']), PORT), 'Via of a request to %s is %s', d, t['msg'].get('via'))
            for h in ('contact', 'from'):
                need('@%s:%d' % (br(t['ip']), PORT) in t['msg'].get(h), '%s of a request to %s is %s', h, d, t['msg'].get(h))
        elif a[0] == 'in':
            gen += 1
            d = DST[a[1]]
            if (':' in d[0]) not in wild and not fixed:
                raise Prune()
            raw = minisip.request('OPTIONS' if not cfg.get('prov') else 'INVITE', 'sip:me@%s' % br(facing(d)), '<sip:y@z.example>;tag=i%d' % gen, '<sip:me@x.example>', 'in%d' % gen, 1,
                                  '%s:%d' % d, 'z9hG4bKi%d' % gen, contact='<sip:y@%s:%d>' % d)
            to = [s for s in n.servers if not s.down and s.uopts.laddress[0] == facing(d)]
            for again in range(2):
                # the system hands a datagram to the socket bound most closely
                sim.deliver(w, tm, raw, d, srv=(to or [wild[':' in d[0]]])[0])
                got = w.sent[mark:]
                need(len(got) == (2 if cfg.get('prov') and not again else 1) or cfg.get('prov'), '%d datagrams for a request', len(got))
                for g in got:
                    if Msg(g[1]).code != 100:
                        judge(g, d, facing(d), a)
                        need('@%s:%d' % (br(facing(d)), PORT) in Msg(g[1]).get('contact'), 'Contact of an answer to %s is %s', d, Msg(g[1]).get('contact'))
                    need(g[2] == d, 'answer for %s sent to %s', d, g[2])
                mark = len(w.sent)
            need(len(reqs) == 1, 'request delivered %d times', len(reqs))
            del reqs[:]
        elif a[0] == 'resp':
            t, c = txs[a[1]], a[2] if len(a) > 2 else 200
            was, prov = len(t['got']), c < 200
            hdr = 'sip:y@%s:%d' % t['d']
            sim.deliver(w, tm, minisip.response(t['msg'], c, 'OK', 'tt', contact='<%s>' % hdr), t['d'], srv=t['srv'])
            need(len(t['got']) == was + 1 and t['got'][-1].getSCode()[0] == c, 'answer delivered %d times', len(t['got']) - was)
            acks = w.sent[mark:]
            if not prov:
                t['left'] = False
            else:
                t['prov'] = True
            if cfg.get('inv') and prov and t.get('gone') == 'held':
                t['gone'] = True
                need([Msg(g[1]).method for g in acks] == ['CANCEL'], 'cancel asked for earlier: %s', acks)
            elif cfg.get('inv') and not prov:
                need([Msg(g[1]).method for g in acks] == ['ACK'], 'answer to the call is answered with %s', acks)
            else:
                need(not acks, 'answer is answered: %s', acks)
            for g in acks:
                judge(g, t['d'], t['ip'], a)
                need(Msg(g[1]).get('via').split(' ')[1].split(';')[0] == '%s:%d' % (br(t['ip']), PORT), 'Via of %s to %s is %s', Msg(g[1]).method, t['d'], Msg(g[1]).get('via'))
        elif a[0] == 'cancel':
            t = txs[a[1]]
            tm.cancelTransaction(t['tx'])
            got = w.sent[mark:]
            t['gone'] = True if t.get('prov') else 'held'
            need([Msg(g[1]).method for g in got] == (['CANCEL'] if t.get('prov') else []), 'cancelling sends %s', got)
            for g in got:
                judge(g, t['d'], t['ip'], a)
                need(Msg(g[1]).get('via').split(' ')[1].split(';')[0] == '%s:%d' % (br(t['ip']), PORT), 'Via of CANCEL to %s is %s', t['d'], Msg(g[1]).get('via'))
        elif a[0] == 't':
            w.advance(a[1])
            for g in w.sent[mark:]:
                t = [t for t in txs if t['raw'] == g[1] or t.get('gone') == True and Msg(g[1]).method == 'CANCEL' and Msg(g[1]).get('call-id') == t['msg'].get('call-id')]
                need(t or cfg.get('prov'), 'unasked: %s', g)
                if t:
                    need(g[2] == t[0]['d'] and g[3] is t[0]['srv'], 'request for %s repeated to %s by %s', t[0]['d'], g[2], g[3].uopts.laddress)
            for t in txs:
                if sim.now() - t['at'] > 32.5 and t['left'] and not t.get('prov'):
                    t['left'] = False
                    need([x.getSCode()[0] for x in t['got']] == [408], 'request without answer: %s', t['got'])
        elif a[0] == 'move':
            # the network changes; what is remembered may be used for a while
            w.advance(cfg['moves'])
            x = dict(n.links)
            n.links = {k: {'10.1.0.1': '10.2.0.1', '10.2.0.1': '10.1.0.1', '2001:db8:1::1': '2001:db8:2::1', '2001:db8:2::1': '2001:db8:1::1'}[v] for k, v in x.items()}
            w.advance(cfg['moves'])
            need(len(w.sent) == mark or cfg.get('prov'), 'sent unasked')
        mark = len(w.sent)
        need(not w.errors, 'raised %s', w.errors[:1])
        up = [s for s in n.servers if not s.down]
        ctx.step(str(a), (cfg['name'], tuple(sorted(s.uopts.laddress[0] for s in up)), len(tm.tclient), len(tm.tserver)))
    ctx.outcome = (cfg['name'], tuple(sorted(s.uopts.laddress[0] for s in n.servers if not s.down)), tuple(t['left'] for t in txs))
    tm.shutdown()
    need(all(s.down for s in n.servers), 'sockets left open: %s', [s.uopts.laddress for s in n.servers if not s.down])


def judge(g, dest, ip, a):
    need(g[2] == dest, '%s: sent to %s', a, g[2])
    need(g[3].uopts.laddress[0] == ip, '%s: sent to %s by the socket of %s, the address that faces it is %s', a, dest, g[3].uopts.laddress[0], ip)


if __name__ == '__main__':
    def body():
        c = Check('C43', 'model_checking')
        d = c.q(4, 5)
        L = [dict(name='both', dst=('a', 'b', 'v', 'w'), depth=d), dict(name='ports', dst=('a', 'a2', 'n'), depth=d), dict(name='v4', dst=('a', 'b'), v6=False, depth=d + 1),
             dict(name='fixed', dst=('a', 'b'), fixed='10.1.0.1', depth=d), dict(name='fixed6', dst=('v', 'w'), fixed='2001:db8:1::1', depth=d),
             dict(name='local', dst=('a', 'v'), local=MINE, depth=c.q(3, 4)), dict(name='localf', dst=('a',), local=('10.1.0.1', '10.2.0.1'), fixed='10.2.0.1', depth=d),
             dict(name='inv', dst=('a', 'v'), inv=True, depth=d), dict(name='localinv', dst=('a',), local=('10.1.0.1', '10.2.0.1'), inv=True, depth=d), dict(name='prov', dst=('a', 'b', 'v'), prov=True, depth=d), dict(name='others', dst=('a', 'v'), others=('0.0.0.0', '10.1.0.1', '::', '2001:db8:1::1'), depth=1), dict(name='others4', dst=('a',), v6=False, others=('0.0.0.0', '10.1.0.1'), depth=1),
             dict(name='othersf', dst=('a',), fixed='10.1.0.1', others=('0.0.0.0', '10.1.0.1', '10.2.0.1', '::'), depth=1), dict(name='others6', dst=('v',), fixed='2001:db8:1::1', others=('0.0.0.0', '10.1.0.1', '::', '2001:db8:2::1', '2001:db8:1::1'), depth=1),
             dict(name='moves', dst=('a', 'b', 'v'), moves=70.0, depth=d)]
        c.explore('addresses', scen, L)
        c.explore('long', scen, [dict(l, name='long%d %s' % (k, l['name']), depth=c.q(16, 40), cycle=k) for k in c.q((2, 3), (2, 3, 4)) for l in L if l['name'] in ('both', 'v4', 'moves')])
        c.finish()
    main(body)
