"""The real B2BUA call map and call controller over the real transaction layer, with scripted
callers and callees, a captured RADIUS helper queue and virtual time (C10-C18)."""
import re
from common import *

sim.std_setup()
import sippy.b2bua as b2bua
from sippy.MyConfigParser import MyConfigParser
from sippy.B2B.Route import B2BRoute
from sippy.RadiusAuthorisation import RadiusAuthorisation
import sippy.External_command as extcmd
sim.seed_tokens()
b2bua.dump_exception = lambda *a, **k: None

CALLER = ('192.0.2.1', 5061)
CALLEES = {'1': ('192.0.2.11', 5060), '2': ('192.0.2.12', 5062), '3': ('192.0.2.13', 5060)}
SDP = {k: minisip.sdp(host='198.51.100.%d' % (10 + i), port=9000 + 10 * i, ver=i + 1) for i, k in enumerate('ABCDEFGH')}
RSN = 'Q.850;cause=16;text="bye bye"'
REASONS = {180: 'Ringing', 181: 'Forwarded', 183: 'Session Progress', 200: 'OK', 302: 'Moved', 401: 'Unauthorized', 403: 'No',
           404: 'Not Here', 407: 'Proxy Auth', 408: 'Timeout', 481: 'Gone', 486: 'Busy', 487: 'Terminated', 488: 'NA', 491: 'Pending',
           500: 'Err', 503: 'Unavail', 600: 'Busy Everywhere', 603: 'Declined', 100: 'Trying', 202: 'Accepted'}


class FakeSignal:
    def __init__(self, signum, callback, *params):
        sim.World.cur.signals[signum] = (callback, params)

    def cancel(self):
        pass


class WItem:
    def __init__(self, data, cb, params):
        self.data, self.cb, self.params = data, cb, params
        self.cancelled = False
        self.t = sim.now()

    def cancel(self):
        self.cancelled = True


class Helper(RadiusAuthorisation):
    """the real RADIUS client, its pool of external processes replaced by a list"""


def _process_command(self, data, result_callback, *params):
    wi = WItem(tuple(data), result_callback, params)
    self.items.append(wi)
    return wi


extcmd.External_command.process_command = _process_command


def attrs(data):
    """name -> value of a request handed to the helper"""
    res = {}
    for l in data[1:]:
        m = re.match(r'^([^=]+)="(.*)"$', l, re.S)
        if m is None:
            raise Violation('unreadable line for the RADIUS helper: %r' % l)
        a, v = m.groups()
        if '=' in v and (a == 'Cisco-AVPair' or v.startswith(a + '=')):
            a, v = v.split('=', 1)
        res.setdefault(a, []).append(v)
    return res


class Leg:
    """one dialog, seen from the remote party"""
    def __init__(self, br, party, cid, out):
        self.br, self.party, self.cid, self.out = br, party, cid, out
        self.ltag = 'p%d' % br.uniq()
        self.rtag = None
        self.cseq = 100
        self.inv = None             # their INVITE to us (Msg), or ours
        self.rctr = self.rpath = None
        self.st = 'new'             # new early est over
        self.pend = None            # re-INVITE we have not answered
        self.mine = None            # our own outstanding request (Msg)
        self.mine_prov = False
        self.prov = False
        self.tinv = sim.now()
        self.seen = {}
        self.nack = set()
        self.lastack = {}
        self.final = None
        self.name = party.name
        self.uri = None

    def contact(self):
        return 'sip:%s@%s%s' % (self.name, self.party.hostport, ';transport=ws' if self.party.conn else '')

    def vias(self, branch):
        return ['SIP/2.0/%s %s;branch=%s' % ('WSS' if self.party.conn else 'UDP', self.party.hostport, branch)]

    # -- sending
    def req(self, method, body='', extra=(), newbranch=True, cseq=None, totag=True, contact=True, mf=70, raw=None):
        if cseq is None:
            self.cseq += 1
            cseq = self.cseq
        br = self.br
        self.branch = 'z9hG4bKp%d' % br.uniq()
        frm = '%s;tag=%s' % (self.luri, self.ltag)
        to = self.ruri + (';tag=' + self.rtag if self.rtag and totag else '')
        m = minisip.request(method, self.rctr, frm, to, self.cid, cseq, self.party.hostport, self.branch,
                            contact='<%s>' % self.contact() if contact else None, extra=extra, body=body, mf=mf,
                            vias=self.vias(self.branch) + self.party.upvias)
        self.send(m)
        return Msg(m)

    def send(self, raw):
        self.br.deliver(raw, self.party.addr)

    def reply(self, m, code, body='', extra=()):
        if code < 200:
            extra = tuple(extra) + (('X-Count', str(self.br.uniq())),)    # or it would be a repeat
        r = minisip.response(m, code, REASONS.get(code, 'R'), self.ltag, '<%s>' % self.contact() if m.method in ('INVITE', 'UPDATE') and code < 300 else None, extra, body)
        self.seen[(m.branch, m.method)] = r
        if m.method == 'INVITE' and code >= 300:
            self.nack.add(m.branch)
        self.send(r)

    def ack(self, resp, body=''):
        inv = self.mines[resp.cseq[0]]
        ok = resp.code < 300
        ruri = self.rctr if ok else inv.ruri
        branch = 'z9hG4bKp%d' % self.br.uniq() if ok else inv.branch
        h = '%s;tag=%s' % (self.luri, self.ltag)
        raw = minisip.request('ACK', ruri, h, resp.get('to'), self.cid, resp.cseq[0], self.party.hostport, branch, body=body, vias=self.vias(branch))
        self.lastack[resp.cseq[0]] = raw
        self.send(raw)

    # -- receiving
    def recv(self, m, new):
        br = self.br
        if m.is_req:
            k = (m.branch, m.method)
            if k in self.seen and (m.is_req or m.code >= 200):
                if self.seen[k] is not None:
                    self.send(self.seen[k])
                return
            self.seen[k] = None
            rs = tuple(re.sub(r'\s*;\s*', ';', x) for x in m.all('reason'))
            if m.method == 'INVITE':
                self.rtag = m.ftag
                self.rctr = minisip.uri(m.get('contact'))
                if new:
                    self.inv = m
                    self.luri = m.get('to')
                    self.ruri = m.get('from').split(';tag=')[0]
                    self.log('INVITE', m.body)
                else:
                    self.pend = m
                    self.log('reINVITE', m.body)
            elif m.method == 'ACK':
                if self.inv is None or m.branch != self.inv.branch and m.branch not in self.nack:
                    self.log('ACK', m.body)
            elif m.method == 'BYE':
                self.st = 'over'
                self.log('BYE', rs)
                if self.mine is not None and self.mine.method == 'INVITE':
                    pass
                self.reply(m, 200)
            elif m.method == 'CANCEL':
                self.log('CANCEL', rs)
                self.reply(m, 200)
                t = self.inv if self.inv is not None and self.inv.branch == m.branch else self.pend
                if t is not None and t.branch == m.branch and (t is not self.inv or self.final is None):
                    if t is self.inv:
                        self.final = 487
                        self.st = 'over'
                    else:
                        self.pend = None
                    self.reply(t, 487)
            else:
                self.log(m.method, m.body)
                self.reply(m, 200)
        else:
            k = (m.branch, m.cseq, m.code, m.raw)
            if k in self.seen and (m.is_req or m.code >= 200):
                if m.method == 'INVITE' and m.code >= 200 and m.cseq[0] in self.lastack:
                    self.send(self.lastack[m.cseq[0]])
                return
            self.seen[k] = True
            if m.code == 100:
                return
            ct = tuple(minisip.uri(x) for x in m.all('contact')) if 300 <= m.code < 400 else ()
            ch = tuple(m.all('www-authenticate') + m.all('proxy-authenticate'))
            if m.method == 'BYE' or m.method == 'CANCEL':
                if m.code != 200:
                    self.log('resp', m.method, m.code)
                return
            self.log('resp', m.method, m.code, m.reason, m.body, ct or ch)
            if m.method == 'INVITE':
                inv = self.mines.get(m.cseq[0])
                if m.code < 200:
                    self.prov = True
                    if m.ttag:
                        self.rtag = m.ttag
                    return
                if self.mine is inv:
                    self.mine = None
                if m.code < 300:
                    self.rtag = m.ttag
                    self.rctr = minisip.uri(m.get('contact'))
                    if inv is self.inv and self.st != 'over':
                        self.st = 'est'
                elif inv is self.inv:
                    self.st = 'over'
                if not self.party.noack:
                    self.ack(m, self.br.ackbody if not inv.body and m.code < 300 else '')
            elif self.mine is not None and m.cseq == self.mine.cseq:
                self.mine = None

    def log(self, *what):
        self.br.log.append((self,) + what)

    # -- calling
    def invite(self, ruri, frm, to, body, extra=(), mf=70, contact=True):
        self.rctr = ruri
        self.luri, self.ruri = frm, to
        self.mines = {}
        self.inv = self.req('INVITE', body, extra, totag=False, mf=mf, contact=contact)
        self.mines[self.cseq] = self.inv
        self.mine = self.inv

    def cancel(self, extra=()):
        i = self.mine
        raw = minisip.request('CANCEL', i.ruri, i.get('from'), i.get('to'), self.cid, i.cseq[0], self.party.hostport, i.branch, extra=extra, vias=self.vias(i.branch))
        self.send(raw)

    def bye(self, extra=()):
        self.st = 'over'
        self.req('BYE', extra=extra)

    def reinvite(self, body):
        m = self.req('INVITE', body)
        if not hasattr(self, 'mines'):
            self.mines = {}
        self.mines[m.cseq[0]] = m
        self.mine = m

    def answer(self, code, body='', extra=()):
        self.prov = True
        if code >= 200:
            self.final = code
            self.st = 'est' if code < 300 else 'over'
            if code < 300:
                pass
        elif self.st == 'new':
            self.st = 'early'
        self.reply(self.inv, code, body, extra)

    def answer_re(self, code, body=''):
        p = self.pend
        if code >= 200:
            self.pend = None
        self.reply(p, code, body)


class Party:
    def __init__(self, name, addr):
        self.name, self.addr = name, addr
        self.hostport = '%s:%d' % addr      # what the party believes its address to be
        self.upvias = []                    # Vias of those who passed its requests on
        self.conn = None                    # the name the WebSocket server knows it by
        self.deaf = False
        self.noack = False
        self.legs = {}

    def dest(self):
        return (self.conn, 0) if self.conn else self.addr


class FakeWs(sim.FakeUdp):
    transport = 'wss'

    def addr2str(self, address):
        return 'wss:%s' % address[0]

    def send_to(self, data, address, delayed=False):
        sim.FakeUdp.send_to(self, data, (address[0], 0))


class Bridge:
    def __init__(self, cfg):
        self.cfg = cfg
        self.w = w = sim.World()
        w.signals = {}
        b2bua.Signal = FakeSignal
        self.n = 0
        g = self.gc = MyConfigParser()
        for k, v in (('digest_auth', True), ('start_acct_enable', False), ('keepalive_ans', 0), ('keepalive_orig', 0), ('auth_enable', False),
                     ('acct_enable', False), ('_pass_headers', []), ('_my_pid', 1), ('_uaname', 'b2b'), ('_orig_cwd', '/'), ('_orig_argv', ['b2bua'])):
            g[k] = v
        for k, v in cfg.get('conf', ()):
            g.check_and_set(k, v)
        for k, v in cfg.get('priv', ()):
            g[k] = v
        self.rad = rad = Helper.__new__(Helper)
        rad.global_config = g
        rad.items = []
        g['_radius_client'] = rad
        if 'static_route' in g:
            g['_static_routes'] = {'': B2BRoute(g['static_route'])}
        b2bua.CallController.id = 1
        self.cmap = g['_cmap'] = b2bua.CallMap(g)
        self.tm = g['_sip_tm'] = sim.mk_stm(w, self.cmap.recvRequest, config=g)
        self.tm.nat_traversal = g.getdefault('nat_traversal', False)
        w.advance(2.1)
        self.base = len(w.timers)
        self.nsent = 0
        self.log = []
        self.parties = {}
        self.ackbody = SDP['H']
        self.others = []
        self.hold = False
        self.legs = []
        self.add('A', CALLER)
        for k, a in CALLEES.items():
            self.add(k, a)
        for k, hp in cfg.get('inside', {}).items():
            getattr(self, 'p' + k).hostport = hp

        self.conns = {}
        if cfg.get('ws'):
            import sippy.Network_server
            self.ws = g['_wss_server'] = FakeWs(g, sim.FakeOpts(('10.0.0.1', 9443), self.tm.handleIncoming))
            for k, conn in cfg['ws'].items():
                p = getattr(self, 'p' + k)
                p.conn, p.hostport = conn, 'nowhere%s.invalid' % k
                self.conns[conn] = p
                del self.parties[p.addr]
        if cfg.get('proxied'):
            from sippy.StatefulProxy import StatefulProxy
            self.cmap.proxy = StatefulProxy(g, CALLER)
            g['_static_routes'] = {b2bua.SRC_PROXY: B2BRoute(b2bua.DST_WSS_UA)}
            self.base = len(w.timers)

    def uniq(self):
        self.n += 1
        return self.n

    def add(self, name, addr):
        p = self.parties[addr] = Party(name, addr)
        setattr(self, 'p' + name, p)
        return p

    def deliver(self, raw, addr):
        p = [p for p in self.conns.values() if p.addr == addr]
        if p:
            sim.deliver(self.w, self.tm, raw, addr, 'wss', self.ws, p[0].conn)
        else:
            sim.deliver(self.w, self.tm, raw, addr)

    def call(self, cld='5551', cli='1001', body=SDP['A'], extra=(), mf=70, party=None, cid=None, host='10.0.0.1', name='Alice', contact=True):
        p = party or self.pA
        cid = cid or 'call%d@a' % self.uniq()
        leg = Leg(self, p, cid, True)
        p.legs[cid] = leg
        self.legs.append(leg)
        host = self.cfg.get('host', host)
        u = 'sip:%s@%s' % (cld, host) if cld else 'sip:' + host
        leg.invite(u, ('"%s" ' % name if name else '') + '<sip:%s@%s>' % (cli, p.addr[0]), '<%s>' % u, body, extra, mf, contact)
        return leg

    def pump(self):
        """let the parties see and react to everything on the wire"""
        if self.hold:
            return
        w = self.w
        w.pump_threads()
        while self.nsent < len(w.sent):
            t, raw, dest, srv = w.sent[self.nsent]
            self.nsent += 1
            p = self.parties.get(dest) if srv.transport == 'udp' else self.conns.get(dest[0])
            if p is None:
                raise Violation('something was sent to %s, which takes no part: %s' % (dest, raw.split('\r\n')[0]))
            if p.deaf:
                continue
            m = Msg(raw)
            if p.conn and m.is_req:
                need(re.match(r'sip:([^@]*@)?%s(:[0-9]+)?(;|$)' % re.escape(p.conn), m.ruri), '%s sent over the connection of %s', m.sl, p.conn)
                need(re.match(r'SIP/2.0/WSS ', m.get('via')), 'request over WebSocket with Via %s', m.get('via'))
            leg = p.legs.get(m.cid)
            new = False
            if leg is None:
                if m.is_req and m.method == 'INVITE' and m.ttag is None:
                    leg = p.legs[m.cid] = Leg(self, p, m.cid, False)
                    self.legs.append(leg)
                    new = True
                else:
                    raise Violation('%s for an unknown call sent to %s' % (m.sl, p.name))
            leg.recv(m, new)
            w.pump_threads()
        if w.errors:
            raise Violation('exception escaped: %s' % w.errors[0][0], w.errors[0][1])

    def advance(self, dt):
        """virtual time, timer by timer, with the parties reacting at once"""
        end = sim.now() + dt
        self.pump()
        n = 0
        while True:
            d = self.w.next_due()
            if d is None or d > end:
                break
            self.w.fire(self.w.due_timers()[0])
            self.pump()
            n += 1
            if n > 20000:
                raise Violation('timer storm')
        sim._now[0] = end
        self.pump()

    def take(self):
        l, self.log = self.log, []
        return l

    # -- the RADIUS side
    def requests(self, kind=None):
        return [i for i in self.rad.items if kind is None or i.data[0] == kind]

    def verdict(self, wi, lines, code):
        """what the helper process prints for a request"""
        if wi.cancelled:
            return
        res = tuple(x.encode() for x in lines) + (str(code).encode(),)
        try:
            self.rad.process_result(wi.cb, res, *wi.params)
        except Exception as e:
            self.w.error(e)
        self.pump()

    # -- end of the story
    def quiet_end(self, total=140.0):
        self.advance(total)
        need(not self.cmap.ccmap, 'the call map still holds %d call(s) after both sides have been quiet for %d s: states %s', len(self.cmap.ccmap), int(total),
             [(c.state.sname, str(c.uaA and c.uaA.state), str(c.uaO and c.uaO.state)) for c in self.cmap.ccmap])
        tm = self.tm
        need(not tm.tclient and not tm.tserver, 'transactions left behind: %s %s', list(tm.tclient), list(tm.tserver))
        left = [t.name for t in self.w.timers]
        need(len(left) == self.base, 'timers left behind: %s', left)
        need(not tm.req_consumers, 'dialogs left behind: %s', tm.req_consumers)


def norm_sdp(txt):
    """c= may be given once for all or in each section"""
    parts = re.split('(?m)^(?=m=)', txt)
    res = [[x for x in parts[0].split('\r\n') if not x.startswith('c=') or len(parts) == 1]]
    c0 = [x for x in parts[0].split('\r\n') if x.startswith('c=')]
    for p in parts[1:]:
        l = p.split('\r\n')
        c = [x for x in l if x.startswith('c=')] or c0
        res.append([l[0]] + c + [x for x in l[1:] if not x.startswith('c=')])
    return res
