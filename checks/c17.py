"""C17: calls through a media relay.  The relay is played by the harness, at the interface
of the relay client; part one gives every kind of answer at once and predicts every
description and command, part two lets answers arrive at any point of the call."""
from b2b_model import *
import gc
import sippy.Rtp_proxy.session as rps
import sippy.Rtp_proxy.Session.side as side
import sippy.Rtp_proxy.Session.update as upd
import sippy.Rtp_proxy.Cmd.sequencer as rseq
rseq.dump_exception = lambda *a, **k: None
side.dump_exception = lambda *a, **k: None
ADDR = '203.0.113.1'
SUPP = ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf', 'udp', 'udptl', 'udp/bfcp')


class Relay:
    """stands for Rtp_proxy_client"""
    def __init__(self, name='r1', online=True, caps=True, notify=None, addr=ADDR):
        self.name, self.online = name, online
        self.sbind_supported = self.tnot_supported = caps
        self.is_local = False
        self.notify_socket = notify
        self.proxy_address = addr
        self.queue, self.cmds, self.auto = [], [], None
        self.ports = {}             # (call, port told, stream) -> what the relay said
        self.us = []
        self.n = 0

    def send_command(self, cmd, cb=None, *params):
        self.cmds.append(cmd)
        e = [cmd, cb, params]
        self.queue.append(e)

    def port(self):
        self.n += 1
        return 30000 + 2 * self.n

    def answer(self, kind):
        cmd, cb, params = self.queue.pop(0)
        if cmd[0] == 'U':
            m = RE_U.match(cmd)
            need(m is not None, 'relay command %r', cmd)
        if cmd[0] != 'U':
            res = '0'
            got = None
        else:
            p = self.port()
            res, got = {'port': ('%d' % p, (p, 'IP4', self.proxy_address)), 'addr': ('%d 203.0.113.77' % p, (p, 'IP4', '203.0.113.77')), 'nl': ('%d 203.0.113.78\n' % p, (p, 'IP4', '203.0.113.78')),
                        'v6': ('%d 2001:db8::9 6' % p, (p, 'IP6', '2001:db8::9')), 'err': ('E8', None), 'none': (None, None), 'zero': ('0', None)}[kind]
            self.ports.setdefault((m.group(2), int(m.group(5)), int(m.group(3))), []).append(got)
            self.us.append((m.groups(), got))
        if cb is not None:
            cb(res, *params)
        return got


RE_U = re.compile(r'^U(\S*) (\S+)-(\d+) (\S+) (\d+) (\S+)(?: (?!unix:)(\S+))??(?: (unix:\S+) (\S+))?$')
RE_D = re.compile(r'^D (\S+)-(\d+) (\S+) (\S+)$')


def mk_sdp(secs, mark, conn='198.51.100.%d'):
    """secs: list of (kind) -> text; every port is the mark's own"""
    c = conn % (mark % 200)
    if secs == ('x',):
        return 'v=0\r\no=- 77 %d IN IP4 %s\r\nc=IN IP4 %s\r\nt=0 0\r\nm=audio %d RTP/AVP 0\r\n' % (mark, c, c, port_of(mark, 0))
    if secs == ('y',):
        return 'v=0\r\no=- 77 %d IN IP4 %s\r\ns=m%d\r\nc=IN IP4 %s\r\nt=0 0\r\nm=audio x RTP/AVP 0\r\n' % (mark, c, mark, c)
    s = 'v=0\r\no=- 77 %d IN IP4 %s\r\ns=m%d\r\nc=IN IP4 %s\r\nt=0 0\r\na=x-sess:1\r\n' % (mark, c, mark, c)
    for i, k in enumerate(secs):
        p = port_of(mark, i)
        s += {'a': 'm=audio %d RTP/AVP 0 101\r\na=rtpmap:0 PCMU/8000\r\na=rtpmap:101 telephone-event/8000\r\na=sendrecv\r\n' % p,
              'h': 'm=audio %d RTP/AVP 0\r\nc=IN IP4 0.0.0.0\r\na=rtpmap:0 PCMU/8000\r\na=sendrecv\r\na=ptime:20\r\n' % p,
              'i': 'm=audio %d RTP/AVP 8\r\nc=IN IP4 0.0.0.0\r\na=sendonly\r\n' % p,
              'j': 'm=audio %d RTP/AVP 8\r\nc=IN IP4 0.0.0.0\r\n' % p,
              'r': 'm=audio %d RTP/AVP 8\r\na=rtcp:%d IN IP4 %s\r\na=ptime:20\r\n' % (p, p + 1, c),
              's': 'm=audio %d RTP/SAVP 8 0\r\na=inactive\r\na=crypto:1 AES inline:k\r\n' % p,
              '6': 'm=video %d RTP/AVP 96\r\nc=IN IP6 2001:db8::%d\r\na=rtpmap:96 H264/90000\r\n' % (p, mark),
              '7': 'm=audio %d RTP/AVP 0\r\nc=IN IP6 ::\r\na=sendrecv\r\n' % p,
              '0': 'm=video 0 RTP/AVP 31\r\na=sendrecv\r\n',
              't': 'm=image %d udptl t38\r\na=T38FaxVersion:0\r\n' % p,
              'b': 'm=application %d UDP/BFCP *\r\na=floorctrl:c-s\r\n' % p,
              'm': 'm=message %d TCP/MSRP *\r\na=path:msrp://x\r\n' % p}[k]
    return s


def port_of(mark, i):
    return 10000 + mark * 10 + i


def expect(txt, answers):
    """what the other party must see, given the relay's answer for each handled stream;
    the origin line is looked at separately"""
    n = norm_sdp(txt)
    hand = [i for i, s in enumerate(n) if i and s[0].split()[2].lower() in SUPP]
    if not hand:
        return n
    for i, (port, fam, addr) in zip(hand, answers):
        s = n[i]
        w = s[0].split()
        hold = s[1] in ('c=IN IP4 0.0.0.0', 'c=IN IP6 ::')
        if w[1] != '0':
            w[1] = str(port)
        s[0] = ' '.join(w)
        s[1] = 'c=IN %s %s' % (fam, addr)
        if hold:
            s[:] = [x for x in s if x != 'a=sendrecv']
            if 'a=sendonly' not in s:
                s.insert(len(s) - 1 if s[-1] == '' else len(s), 'a=sendonly')
        for j, x in enumerate(s):
            if x.startswith('a=rtcp:'):
                s[j] = 'a=rtcp:%d IN %s %s' % (port + 1, fam, addr)
    s = n[-1]
    s.insert(len(s) - 1, 'a=nortpproxy:yes')
    return n


def drop_o(n):
    return [[x for x in s if not x.startswith('o=')] for s in n]


def bad(txt):
    return '\r\ns=' not in txt or 'm=audio x' in txt


def codes(txt):
    return (488, 502) if bad(txt) else (502,)


class Call:
    """one call as the relay and the parties should see it (answers at once)"""
    def __init__(self, br, relay, cfg):
        self.br, self.r, self.cfg = br, relay, cfg
        self.mark = 0
        self.tags = {}
        self.exists = {'A': False, 'B': False}
        self.errs = False
        self.maxi = -1
        self.o = {}
        self.seen = 0
        self.cid = None

    def new(self, secs):
        self.mark += 1
        return mk_sdp(secs, self.mark), self.mark

    def serve(self, kinds):
        """answer everything the relay has been asked, in order"""
        res = []
        self.br.pump()
        while self.r.queue:
            k = kinds[min(len(res), len(kinds) - 1)]
            res.append((self.r.queue[0][0], self.r.answer(k)))
            self.br.pump()
        return res

    def check_cmds(self, side, txt, cmds, idx0=0):
        """side: whose description it is"""
        br = self.br
        hand = [s for s in norm_sdp(txt)[1:] if not bad(txt) and s[0].split()[2].lower() in SUPP]
        us = [c for c in cmds if c[0][0] == 'U']
        if bad(txt):
            need(not us, 'relay was asked %s for a malformed description', us)
            return [None]
        need(len(us) == len(hand), 'relay was asked %s for a description with %d streams', us, len(hand))
        other = 'B' if side == 'A' else 'A'
        for i, ((c, got), s) in enumerate(zip(us, hand)):
            m = RE_U.match(c)
            need(m is not None, 'relay command %r', c)
            opts, cid, ix, ip, port, t1, t2, ns, nt = m.groups()
            w = s[0].split()
            fam, addr = s[1].split()[1:]
            need((cid, int(ix), ip, port) == (self.cid, i, addr, w[1]), 'relay command %r for stream %d of call %s at %s', c, i, self.cid, s[:2])
            exp = '6' if fam == 'IP6' else ''
            if self.r.sbind_supported:
                exp += 'R' + (self.remote_of(side))
            need(opts == exp, 'options %r in %r instead of %r', opts, c, exp)
            for t, sd in ((t1, side), (t2, other)):
                if t is not None:
                    need(self.tags.setdefault(sd, t) == t, 'tag of side %s changed: %r', sd, c)
            need(len(set(self.tags.values())) == len(self.tags), 'both sides have the same tag: %r', c)
            if not self.errs:
                need((t2 is not None) == (self.exists[other] or self.had(other, i)), 'second tag in %r while the other side is %s', c, self.exists)
            if self.r.notify_socket and self.r.tnot_supported:
                need((ns, nt) == (self.r.notify_socket, 'r%%20%d' % self.ccid + ('%%20%d' % i if i else '')), 'notification in %r', c)
            else:
                need(ns is None, 'notification in %r', c)
            self.maxi = max(self.maxi, i)
            if got is None:
                self.errs = True
        if us:
            self.exists[side] = True
        return [g for c, g in us]

    def had(self, other, i):
        return False

    def remote_of(self, side):
        return self.B_addr if side == 'A' else CALLER[0]

    def check_body(self, side, txt, answers, got):
        exp = expect(txt, answers)
        n = norm_sdp(got)
        need(drop_o(n) == drop_o(exp), 'description passed on is\n%s\ninstead of\n%s', n, exp)
        if not answers:
            need(n == exp, 'a description without relayed streams was changed: %s instead of %s', n, exp)
            return
        src = [x for x in txt.split('\r\n') if x.startswith('o=')][0].split()
        dst = [x for x in got.split('\r\n') if x.startswith('o=')][0].split()
        last = self.o.get(side)
        if last is not None:
            need(dst[1] == last[1][1] and int(dst[2]) == int(last[1][2]) + (src[2] != last[0][2]), 'origin %s after %s', dst, last)
        self.o[side] = (src, dst)

    def over(self, timeout_idx=None):
        """the relay session is gone, every stream of it, once"""
        br = self.br
        if len([c for c in self.r.cmds if c[0] == 'D']) <= self.maxi:
            gc.collect()
        self.serve(['port'])
        check_deleted(self.r, self.maxi, self.cid, self.tags, timeout_idx)


def check_deleted(r, maxi, cid, tags, timeout_idx=None):
    ds = [(n, RE_D.match(c)) for n, c in enumerate(r.cmds) if c[0] == 'D']
    need(all(m for n, m in ds), 'relay command %s', [r.cmds[n] for n, m in ds])
    idx = sorted(int(m.group(2)) for n, m in ds)
    exp = [i for i in range(maxi + 1) if i != timeout_idx]
    need(idx == exp, 'streams %s of the relay session were deleted, not %s: %s', idx, exp, r.cmds)
    for n, m in ds:
        need(m.group(1) == cid, 'deleted a session of another call: %s', m.group(0))
        for k, t in (('A', m.group(3)), ('B', m.group(4))):
            need(tags.setdefault(k, t) == t, 'tags in %r are not %s', m.group(0), tags)
        need(not [c for c in r.cmds[n:] if c[0] == 'U'], 'relay asked for a port of a deleted session: %s', r.cmds)


def start(cfg, **kw):
    gc.disable()
    r = Relay(caps=cfg.get('caps', True), notify='unix:/tmp/x' if cfg.get('notify') else None)
    conf = [('auth_enable', 'off'), ('static_route', cfg.get('route', '%s:%d' % CALLEES['1']))]
    if cfg.get('auth'):
        conf = [('auth_enable', 'on'), ('digest_auth', 'off')]
    br = Bridge(dict(conf=conf + list(cfg.get('conf', ())), priv=[('_rtp_proxy_clients', cfg.get('clients', lambda r: [r])(r))]))
    return br, r


def now_resp(br, leg):
    g = br.take()
    return g


KINDS = ('port', 'addr', 'v6', 'nl', 'err', 'none', 'zero')
SECS = ('a', 'h', 'i', 'j', 'r', 's', '6', '7', '0', 't', 'b', 'm')


def sync(ch, ctx, cfg):
    """relay answers at once"""
    br, r = start(cfg)
    C = Call(br, r, cfg)
    C.B_addr = CALLEES['1'][0]
    C.ccid = 1
    menu = cfg['menu']
    kinds = cfg['kinds']

    def pick(nm):
        w = menu[ch.choose(len(menu))]
        t, m = C.new(w)
        k = kinds[ch.choose(len(kinds))]
        return w, t, k
    w, txt, k = pick('offer')
    late = cfg.get('late')
    st = [cfg['name'], w, k]
    A = br.call(body='' if late else txt, cid='call@a')
    C.cid = A.cid
    br.pump()
    if late:
        need(not r.queue, 'relay asked without a description: %s', r.cmds)
        got = br.take()
    else:
        served = C.serve([k] if len(w) < 2 else ['port', k])
        answers = C.check_cmds('A', txt, served)
        got = br.take()
        if any(a is None for a in answers):
            need([(x[0], x[3] in codes(txt)) for x in got] == [(A, True)], 'the relay failed and the caller saw %s', got)
            br.quiet_end()
            C.over()
            ctx.outcome = tuple(st)
            return
    need([x[1] for x in got] == ['INVITE'] and got[0][0] is not A, 'the call was not placed: %s', got)
    B = got[0][0]
    if not late:
        C.check_body('A', txt, answers, got[0][2])
    ctx.step('offer %s %s' % (w, k), tuple(st))
    dead = cfg['upto'] == 0
    conn = False
    if dead:
        e = ch.choose(3)
        if e == 0:
            A.cancel()
        elif e == 1:
            B.answer(486)
        else:
            B.answer(200)
            br.pump()
            A.bye()
        br.pump()
        if B.st == 'new' and e == 0:
            B.answer(180)
            br.pump()
    else:
        for code in cfg['codes']:
            w, txt, k = pick('answer')
            st += [w, k]
            aw, atxt, ak = pick('ack') if late and code == 200 else (None, '', '')
            br.ackbody = atxt
            B.answer(code, txt)
            br.pump()
            served = C.serve([k] if len(w) < 2 else ['port', k])
            cut = len([c for c in served if c[0][0] == 'U'])
            nh = len([s for s in norm_sdp(txt)[1:] if not bad(txt) and s[0].split()[2].lower() in SUPP])
            answers = C.check_cmds('B', txt, served[:nh])
            got = br.take()
            ctx.step('%d %s %s' % (code, w, k), tuple(st))
            if any(a is None for a in answers):
                need([(x[0], x[3] in codes(txt)) for x in got if x[1] == 'resp'] == [(A, True)], 'the relay failed and the caller saw %s', got)
                need(sorted(x[1] for x in got if x[0] is B) == (['ACK', 'BYE'] if code >= 200 else ['CANCEL']), 'the relay failed and the callee saw %s', got)
                dead = True
                break
            rs = [x for x in got if x[0] is A and x[1] == 'resp']
            need([x[3] for x in rs] == [code], 'the caller saw %s', got)
            C.check_body('B', txt, answers, rs[0][5])
            if code == 200:
                if late:
                    aa = C.check_cmds('A', atxt, served[nh:])
                    st += [aw]
                    need([x[1] for x in got if x[0] is B] == ['ACK'], 'the callee saw %s', got)
                    C.check_body('A', atxt, aa, [x[2] for x in got if x[1] == 'ACK'][0])
                else:
                    need(len(served) == nh and [(x[1], x[2]) for x in got if x[0] is B] == [('ACK', '')], 'the callee saw %s', got)
                conn = True
        if not dead and not conn:
            A.cancel()
            br.pump()
        for i in range(cfg['upto'] - 1):
            if dead or not conn:
                break
            s, o = ('A', 'B') if ch.choose(2) == 0 else ('B', 'A')
            me, other = (A, B) if s == 'A' else (B, A)
            w, txt, k = pick('re')
            st += [s, w, k]
            me.reinvite(txt)
            br.pump()
            served = C.serve([k] if len(w) < 2 else ['port', k])
            answers = C.check_cmds(s, txt, served)
            got = br.take()
            ctx.step('%s re %s %s' % (s, w, k), tuple(st))
            if any(a is None for a in answers):
                rs = [(x[0], x[3] in codes(txt)) for x in got if x[1] == 'resp']
                need(rs == [(me, True)], 'the relay failed and the party changing the session saw %s', got)
                ended = [x for x in got if x[1] == 'BYE']
                need(not [x for x in got if x[1] == 'reINVITE'], 'the relay failed and the other party saw %s', got)
                if ended:
                    need(sorted(x[0].name for x in ended) == sorted([A.name, B.name]), 'the relay failed and only one side was ended: %s', got)
                    dead = True
                continue
            need([(x[0], x[1]) for x in got] == [(other, 'reINVITE')], 'session change: %s', got)
            C.check_body(s, txt, answers, got[0][2])
            w, txt, k = pick('reans')
            st += [w, k]
            other.answer_re(200, txt)
            br.pump()
            served = C.serve([k] if len(w) < 2 else ['port', k])
            answers = C.check_cmds(o, txt, served)
            got = br.take()
            ctx.step('%s ans %s %s' % (o, w, k), tuple(st))
            rs = [x for x in got if x[1] == 'resp' and x[0] is me]
            if any(a is None for a in answers):
                need([x[3] in codes(txt) for x in rs] == [True] and not rs[0][5], 'the relay failed and the party changing the session saw %s', got)
                need(sorted(x[0].name for x in got if x[1] == 'BYE') == sorted([A.name, B.name]), 'the relay failed in an answer, the parties saw %s', got)
                dead = True
                continue
            need([x[3] for x in rs] == [200], 'answer to the session change: %s', got)
            C.check_body(o, txt, answers, rs[0][5])
        if conn and not dead:
            (A, B)[ch.choose(2)].bye()
            br.pump()
    C.serve(['port'])
    ctx.outcome = tuple(st)
    br.quiet_end()
    C.over()


# ---------------------------------------------------------------- part two
class Watch:
    """what must hold whenever anything is delivered"""
    def __init__(self, br, r, cid):
        self.br, self.r, self.cid = br, r, cid
        self.mark = 0
        self.txt = {}
        self.by = {}
        self.last = {}
        self.tags = {}
        self.nus = 0
        self.maxi = -1
        self.direct = set()

    def new(self, leg, secs):
        self.mark += 1
        t = self.txt[self.mark] = mk_sdp(secs, self.mark)
        self.by[self.mark] = leg
        return t

    def look(self):
        """everything seen by the parties since the last time"""
        br, r = self.br, self.r
        got = br.take()
        for x in got:
            body = {'INVITE': 2, 'reINVITE': 2, 'ACK': 2, 'resp': 5}.get(x[1])
            body = x[body] if body and (x[1] != 'resp' or x[2] == 'INVITE') else ''
            if not body:
                continue
            mk = re.search(r'(?m)^s=m(\d+)\r$', body)
            need(mk is not None, 'a description nobody has sent: %s', body)
            mk = int(mk.group(1))
            snd, txt = self.by[mk], self.txt[mk]
            need((snd.name == 'A') != (x[0].name == 'A'), 'description %d of %s was delivered to %s', mk, snd.name, x[0].name)
            need(self.last.get((snd, x[0]), 0) <= mk, 'description %d of %s delivered after a later one', mk, snd.name)
            self.last[(snd, x[0])] = mk
            ans = []
            hand = [sec for sec in norm_sdp(txt)[1:] if sec[0].split()[2].lower() in SUPP]
            if {snd.name, x[0].name} & self.direct:
                need(norm_sdp(body) == norm_sdp(txt), 'this route bypasses the relay, yet the description was changed to\n%s\nfrom\n%s', body, txt)
                continue
            for i, sec in enumerate(hand):
                a = r.ports.get((self.cid, int(sec[0].split()[1]), i))
                need(a and a[-1] is not None, 'description %d was delivered without asking the relay about stream %d', mk, i)
                ans.append(a[-1])
            exp = expect(txt, ans)
            need(drop_o(norm_sdp(body)) == drop_o(exp), 'description passed on is\n%s\ninstead of\n%s', norm_sdp(body), exp)
        return got

    def cmds(self):
        """everything the relay was told since the last time"""
        for (opts, cid, ix, ip, port, t1, t2, ns, nt), got in self.r.us[self.nus:]:
            need(cid == self.cid, 'session %s instead of %s', cid, self.cid)
            mk = (int(port) - 10000) // 10
            need(mk in self.by, 'the relay was told of port %s', port)
            side = 'A' if self.by[mk].name == 'A' else 'B'
            self.maxi = max(self.maxi, int(ix))
            for t, sd in ((t1, side), (t2, 'AB'[side == 'A'])):
                if t is not None:
                    need(self.tags.setdefault(sd, t) == t, 'tag of side %s changed to %r', sd, t)
            need(len(set(self.tags.values())) == len(self.tags), 'both sides have the same tag: %s', self.tags)
        self.nus = len(self.r.us)


def inter(ch, ctx, cfg):
    """relay answers at any moment"""
    br, r = start(cfg)
    menu = cfg['menu']
    A = br.call(body='', cid='call@a') if cfg.get('late') else None
    W = Watch(br, r, 'call@a')
    if A is not None:
        br.ackbody = W.new(A, menu[0])
    else:
        W.by[1] = None
        W.mark = 1
        W.txt[1] = mk_sdp(menu[0], 1)
        A = br.call(body=W.txt[1], cid='call@a')
        W.by[1] = A
    br.pump()
    if 'routes' in cfg:
        br.verdict(br.requests('AUTH')[0], ["h323-ivr-in = 'Routing:%s'" % x for x in cfg['routes']], 0)
        br.pump()
    if 'direct' in cfg:
        W.direct = {cfg['direct']}
    hist = []
    legs = lambda: [l for l in br.legs if l is not A]
    for k in cfg.get('pre', ()):
        if k == 'port':
            while r.queue:
                r.answer('port')
                br.pump()
        elif k == '200':
            legs()[-1].answer(200, W.new(legs()[-1], menu[0]))
            br.pump()
    W.look()
    W.cmds()

    def acts():
        a = []
        if r.queue:
            a += [('relay', k) for k in cfg['kinds']]
        if A.inv is not None and A.mine is A.inv and A.st != 'over' and cfg.get('cancel', True):
            if not cancelled[0]:
                a.append(('A', 'cancel'))
        if A.st == 'est':
            a.append(('A', 'bye'))
            if A.mine is None and A.pend is None:
                a += [('A', 're', w) for w in menu]
        if A.pend is not None:
            a += [('A', 'reans', w) for w in menu] + [('A', 'rerej')]
        for i, B in enumerate(legs()):
            if B.st in ('new', 'early') and B.final is None:
                a += [('B', i, 183, w) for w in menu] + [('B', i, 200, w) for w in menu] + [('B', i, 486)]
            if B.st == 'est':
                a.append(('B', i, 'bye'))
                if B.pend is None and B.mine is None:
                    a += [('B', i, 're', w) for w in menu]
                if B.pend is not None:
                    a += [('B', i, 'reans', w) for w in menu] + [('B', i, 'rerej')]
                    if cfg.get('re183'):
                        a += [('B', i, 're183', w) for w in menu]
        for l in br.legs:
            if l.st == 'est' and cfg.get('info'):
                a.append(('A', 'info') if l is A else ('B', legs().index(l), 'info'))
        return [x for x in a if x[0] == 'relay' or 'only' not in cfg or x[1 if x[0] == 'A' else 2] in cfg['only']]
    cancelled = [False]
    for d in range(cfg['depth']):
        a = acts()
        if not a:
            break
        k = ch.choose(len(a) + 1)
        if k == len(a):
            break
        a = a[k]
        hist.append(a)
        ctx.step(str(a), (cfg['name'],) + tuple(hist))
        if a[0] == 'relay':
            r.answer(a[1])
        else:
            leg = A if a[0] == 'A' else legs()[a[1]]
            w = a[1:] if a[0] == 'A' else a[2:]
            if w[0] == 'cancel':
                cancelled[0] = True
                A.cancel()
            elif w[0] == 'bye':
                leg.bye()
            elif w[0] == 'info':
                leg.req('INFO')
            elif w[0] == 're':
                leg.reinvite(W.new(leg, w[1]))
            elif w[0] == 'reans':
                leg.answer_re(200, W.new(leg, w[1]))
            elif w[0] == 're183':
                leg.answer_re(183, W.new(leg, w[1]))
            elif w[0] == 'rerej':
                leg.answer_re(488)
            elif len(w) == 1:
                leg.answer(w[0])
            else:
                leg.answer(w[0], W.new(leg, w[1]))
        br.pump()
        W.look()
        W.cmds()
    # everybody now does what he owes
    for n in range(40):
        br.pump()
        if r.queue:
            r.answer('port')
        elif A.pend is not None and A.st != 'over':
            A.answer_re(200, W.new(A, menu[0]))
        else:
            for B in legs():
                if B.pend is not None and B.st != 'over':
                    B.answer_re(200, W.new(B, menu[0]))
                    break
                if B.final is None and B.st != 'over':
                    B.answer(cfg.get('last', 486))
                    break
            else:
                break
        br.pump()
        W.look()
        W.cmds()
    W.look()
    for l in br.legs:
        need(l.mine is None or l.st == 'over' or l.mine.method != 'INVITE', 'a request of %s was never answered', l.name)
    up = [l.name for l in legs() if l.st == 'est']
    need((A.st == 'est') == (len(up) == 1) and len(up) < 2, 'one party only is in the call: caller %s, callees %s', A.st, [l.st for l in legs()])
    ctx.outcome = tuple(hist)
    if A.st == 'est':
        A.bye()
    br.quiet_end()
    if len([c for c in r.cmds if c[0] == 'D']) <= W.maxi:
        gc.collect()
    while r.queue:
        r.answer('port')
        br.pump()
    W.cmds()
    check_deleted(r, W.maxi, 'call@a', W.tags)


# ---------------------------------------------------------------- part three
def outage(ch, ctx, cfg):
    """several relays, some of them down, at the start of each of two calls"""
    gc.disable()
    rs = [Relay('r%d' % i, addr='203.0.113.%d' % (i + 1)) for i in range(cfg['n'])]
    rps.random = lambda: (0, 0.34, 0.5, 0.67, 0.999)[ch.choose(5)]
    br = Bridge(dict(conf=[('auth_enable', 'off'), ('static_route', '%s:%d' % CALLEES['1'])], priv=[('_rtp_proxy_clients', rs)]))
    hist = []
    used = {}
    for n in range(2):
        for r in rs:
            r.online = ch.choose(2) == 0
        hist.append(tuple(r.online for r in rs))
        ctx.step(str(hist[-1]), (cfg['n'],) + tuple(hist))
        txt = mk_sdp(('a', 'a'), n + 1)
        A = br.call(body=txt, cid='c%d@a' % n)
        br.pump()
        mine = [r for r in rs if r.queue]
        if not any(hist[-1]):
            got = br.take()
            need(not mine and len(got) == 1 and got[0][0] is A and got[0][1] == 'resp' and got[0][3] >= 500, 'no relay is available, the caller saw %s', got)
            continue
        need(len(mine) == 1 and mine[0].online, 'relays %s, %s asked', hist[-1], [r.name for r in mine])
        for i in range(2):
            mine[0].answer('port')
        br.pump()
        got = br.take()
        need([x[1] for x in got] == ['INVITE'] and not [r for r in rs if r.queue], 'relay answered, parties saw %s', got)
        need(drop_o(norm_sdp(got[0][2])) == drop_o(expect(txt, [x[1] for x in mine[0].us[-2:]])), 'description passed on: %s', got[0][2])
        used[A.cid] = (mine[0], got[0][0], A)
    for r in rs:
        r.online = ch.choose(2) == 0
    for r, B, A in used.values():
        B.answer(486)
    br.quiet_end()
    gc.collect()
    br.pump()
    for cid, (r, B, A) in used.items():
        for x in rs:
            while x.queue:
                need(x is r or x in [y[0] for y in used.values()], 'a relay which has no sessions is told %s', x.cmds)
                x.answer('port')
        need(sorted(re.sub(' .*', '', c[2:]) for c in r.cmds if c[0] == 'D' and c[2:].startswith(cid)) == [cid + '-0', cid + '-1'], 'session of %s: %s', cid, r.cmds)
    ctx.outcome = (cfg['n'],) + tuple(hist)


def stuck(ch, ctx, cfg):
    """the relay reports that media has stopped"""
    br, r = start(cfg)
    op = Op(br)
    A = br.call(body=mk_sdp(('a',) * cfg['n'], 1), cid='call@a')
    C = Call(br, r, cfg)
    C.cid = 'call@a'
    C.maxi = cfg['n'] - 1
    if 'routes' in cfg:
        br.verdict(br.requests('AUTH')[0], ["h323-ivr-in = 'Routing:%s'" % x for x in cfg['routes']], 0)
    C.serve(['port'])
    B = br.take()[0][0]
    st = cfg['st']
    if st == 'conn':
        B.answer(200, mk_sdp(('a',) * cfg['n'], 2))
    elif st == 'early':
        B.answer(183, mk_sdp(('a',) * cfg['n'], 2))
    C.serve(['port'])
    br.take()
    br.advance(cfg['after'])
    arg = ['', ' 0', ' 1', ' 2'][ch.choose(4)]
    t = int(arg or 0)
    hist = [cfg['name'], st, cfg['n'], arg]
    ctx.step('r 1' + arg, tuple(hist))
    need(op.cmd('r 1' + arg) == 'OK\n', 'media timeout refused')
    br.pump()
    got = br.take()
    if st == 'conn':
        need(sorted((x[0].name, x[1]) for x in got) == [('1', 'BYE'), ('A', 'BYE')], 'media has stopped, the parties saw %s', got)
        gone = t
    else:
        need([x[1] for x in got if x[0] is B] == (['CANCEL'] if st == 'early' else []), 'media has stopped, the callee saw %s', got)
        gone = t
        C.serve(['port'])
        got += br.take()
        B2 = [x[0] for x in got if x[1] == 'INVITE']
        rs = [(x[2], x[3]) for x in got if x[0] is A]
        if len(cfg.get('routes', ())) > 1:
            need(len(B2) == 1 and not rs, 'media has stopped, the next route was not tried: %s', got)
            gone = None
            B2[0].answer(486)
            br.pump()
        else:
            need(not B2 and [x[0] for x in rs] == ['INVITE'] and rs[0][1] >= 400, 'media has stopped, the caller saw %s', got)
    if st == 'new':
        B.answer(180)
    br.quiet_end()
    C.serve(['port'])
    C.over(gone)
    acc = [attrs(i.data) for i in br.requests('ACCT')]
    if cfg.get('acct') and st == 'conn':
        need(sorted(x['Acct-Session-Time'] for x in acc) == [['%d' % max(0, round(cfg['after'] - 60))]] * 2, 'accounting %s', [x['Acct-Session-Time'] for x in acc])
        need(all(x['release-source'] for x in acc), 'release source %s', acc)
    ctx.outcome = tuple(hist)


class Out:
    def __init__(self):
        self.buf = ''

    def send(self, s):
        self.buf += s


class Op:
    def __init__(self, br):
        from sippy.B2B.SimpleAPI import B2BSimpleAPI
        self.api = B2BSimpleAPI.__new__(B2BSimpleAPI)
        self.api.global_config = br.gc

    def cmd(self, line):
        o = Out()
        o.close = lambda: None
        self.api.recvCommand(o, line)
        return o.buf


if __name__ == '__main__':
    def body():
        c = Check('C17', 'model_checking')
        L = []
        one = [(s,) for s in SECS]
        two = [(a, b) for a in SECS for b in SECS]
        for nm, kw in (('plain', {}), ('nocaps', dict(caps=False, notify=True)), ('notify', dict(notify=True))):
            L.append(dict(kw, name='off-' + nm, menu=one + two + [('a', 'm', 't'), ('m', 'm', 'h'), ('a', 'a', '6'), ('x',), ('y',)], kinds=KINDS, upto=0))
            small = [('a',), ('h', '6'), ('m', 'a'), ('x',)]
            bads = [('a',), ('x',), ('y',)]
            L.append(dict(kw, name='ans-' + nm, menu=small, kinds=KINDS, codes=(200,), upto=1))
            L.append(dict(kw, name='prov-' + nm, menu=small[:2], kinds=('port', 'v6', 'err'), codes=(183, 200), upto=1))
            L.append(dict(kw, name='early-' + nm, menu=small, kinds=('port', 'addr', 'err'), codes=(183,), upto=1))
            L.append(dict(kw, name='bad-' + nm, menu=bads, kinds=('port',), codes=(183, 200), upto=2))
            L.append(dict(kw, name='late-' + nm, menu=small[:3], kinds=('port', 'addr'), codes=(200,), upto=1, late=True))
            L.append(dict(kw, name='re-' + nm, menu=small[:2], kinds=('port', 'err'), codes=(200,), upto=2))
        L.append(dict(name='re3', menu=small[:1], kinds=('port', 'addr'), codes=(200,), upto=c.q(3, 4)))
        for k in c.q((2, 3), (2, 3, 4)):
            L.append(dict(name='long%d' % k, menu=small[:2], kinds=('port', 'err'), codes=(200,), upto=c.q(9, 25), cycle=k))
        c.explore('sync', sync, L)
        M = []
        one = (('a',),)
        est = ('port', '200', 'port')
        h = ['5552@%s:%d' % CALLEES[k] for k in '12']
        h0 = ['5552@%s:%d;rtpp=0' % CALLEES['1'], '5552@%s:%d' % CALLEES['2']]
        M.append(dict(name='setup', menu=one, kinds=('port', 'err'), depth=c.q(7, 10)))
        M.append(dict(name='setup2', menu=(('a', '6'),), kinds=('port', 'none'), depth=c.q(6, 9)))
        M.append(dict(name='setup-mix', menu=(('a',), ('m', 'a'), ('x',)), kinds=('port',), depth=c.q(4, 6), info=True))
        M.append(dict(name='est', menu=one, kinds=('port', 'err'), depth=c.q(5, 7), pre=est, re183=True, info=True))
        M.append(dict(name='est2', menu=(('a', 'a'),), kinds=('port', 'err'), depth=c.q(5, 7), pre=est))
        M.append(dict(name='est-mix', menu=(('a',), ('m',), ('x',)), kinds=('port',), depth=c.q(4, 6), pre=est, only=('re', 'reans', 'bye')))
        M.append(dict(name='late', menu=one, kinds=('port', 'err'), depth=c.q(6, 8), late=True, info=True))
        M.append(dict(name='hunt', menu=one, kinds=('port', 'err'), depth=c.q(7, 9), auth=True, routes=h, only=(183, 200, 486)))
        M.append(dict(name='hunt-mix', menu=(('a', '6'), ('m',)), kinds=('port',), depth=c.q(7, 8), auth=True, routes=h, only=(183, 200, 486)))
        M.append(dict(name='direct1', menu=one, kinds=('port', 'err'), depth=c.q(6, 8), auth=True, routes=h0, direct='1', only=(183, 200, 486, 'bye', 're', 'reans')))
        M.append(dict(name='direct2', menu=one, kinds=('port', 'err'), depth=c.q(6, 8), auth=True, routes=[h0[0].replace('5552', '5553').replace(';rtpp=0', ''), h0[1] + ';rtpp=0'], direct='2', only=(183, 200, 486, 'bye', 're', 'reans')))
        c.explore('delays', inter, M)
        c.explore('outage', outage, [dict(n=n) for n in range(1, c.q(3, 4))])
        S = []
        for st, n, after in [(st, n, a) for st in ('conn', 'early', 'new') for n in (1, 2, 3) for a in (100.0, 20.0) if st != 'new' or a < 30]:
            S.append(dict(name='plain', st=st, n=n, after=after))
            S.append(dict(name='acct', st=st, n=n, after=after, acct=True, conf=[('acct_enable', 'on')]))
            S.append(dict(name='hunt', st=st, n=n, after=after, auth=True, routes=h))
        c.explore('stuck', stuck, S)
        c.finish()
    main(body)
